SPECIFICATION Spec
CONSTANTS
  WS = {1, 3}
  HS = {1, 2}
  Later <- Doubled
  Ways <- SomeWays
INVARIANTS Right Soon
