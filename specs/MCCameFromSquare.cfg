SPECIFICATION Spec
CONSTANTS
  WS = {2}
  HS = {3}
  Limit <- SquareLimit
  Ways <- SomeWays
INVARIANTS Correct LoopsAreLoops TrailLeadsHere
PROPERTY Stops
CHECK_DEADLOCK FALSE
