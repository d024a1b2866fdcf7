SPECIFICATION Spec
CONSTANTS
  WS = {3}
  HS = {1}
  Kind = "any"
  Diag = TRUE
INVARIANTS LayersAreDistances SeenAreNearer NeverTheOrigin WaysBackExist EndMeansAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
