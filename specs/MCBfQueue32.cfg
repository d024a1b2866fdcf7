SPECIFICATION Spec
CONSTANTS
  MarkEarly = TRUE
  WS = {1, 3}
  HS = {2}
  Kind = "edges"
  Diag = FALSE
INVARIANT EndsWithIt
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
