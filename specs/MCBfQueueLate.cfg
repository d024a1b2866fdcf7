SPECIFICATION Spec
CONSTANTS
  MarkEarly = FALSE
  WS = {2}
  HS = {2}
  Kind = "edges"
  Diag = TRUE
INVARIANT EndsWithIt
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
