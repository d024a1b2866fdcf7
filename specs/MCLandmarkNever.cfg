SPECIFICATION Spec
CONSTANTS
  WS = {3}
  HS = {2}
  Later <- Never
  Ways <- SomeWays
INVARIANTS Right Soon
