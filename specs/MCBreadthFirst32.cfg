SPECIFICATION Spec
CONSTANTS
  WS = {1, 3}
  HS = {2}
  Kind = "edges"
  Diag = FALSE
INVARIANTS LayersAreDistances SeenAreNearer NeverTheOrigin WaysBackExist EndMeansAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
