SPECIFICATION Spec
CONSTANTS
  WS = {2}
  HS = {2}
  Later <- Doubled
  Ways <- AllWays
INVARIANTS Right Soon
