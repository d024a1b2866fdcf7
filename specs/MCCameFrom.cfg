SPECIFICATION Spec
CONSTANTS
  WS = {2}
  HS = {2}
  Ways <- AllWays
INVARIANTS Correct LoopsAreLoops TrailLeadsHere
PROPERTY Stops
CHECK_DEADLOCK FALSE
