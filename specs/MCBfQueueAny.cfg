SPECIFICATION Spec
CONSTANTS
  MarkEarly = TRUE
  WS = {3}
  HS = {1}
  Kind = "any"
  Diag = TRUE
INVARIANT EndsWithIt
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
