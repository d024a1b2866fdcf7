SPECIFICATION Spec
CONSTANTS
  WS = {1,3}
  HS = {1,2}
  Ways <- SomeWays
INVARIANTS Correct LoopsAreLoops TrailLeadsHere
PROPERTY Stops
CHECK_DEADLOCK FALSE
