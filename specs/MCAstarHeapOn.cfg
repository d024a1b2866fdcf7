SPECIFICATION Spec
CONSTANTS
  GoOn = TRUE
  WS = {2}
  HS = {2}
  Kind = "edges"
  Diag = TRUE
  TheOrigin = {0}
  SkipStale = TRUE
  Halve = TRUE
INVARIANT EndsWithAll
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
