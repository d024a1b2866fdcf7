SPECIFICATION Spec
CONSTANTS
  WS = {2}
  HS = {2}
  Kind = "edges"
  Diag = TRUE
INVARIANTS LayersAreDistances SeenAreNearer NeverTheOrigin WaysBackExist EndMeansAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
