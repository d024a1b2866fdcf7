SPECIFICATION Spec
CONSTANTS
  WS = {9}
  HS = {1}
  Later <- Doubled
  Ways <- LineWays
INVARIANTS Right Soon
