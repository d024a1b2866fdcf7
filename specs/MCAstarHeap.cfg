SPECIFICATION Spec
CONSTANTS
  GoOn = FALSE
  WS = {2}
  HS = {2}
  Kind = "edges"
  Diag = TRUE
  TheOrigin = {0, 3}
  SkipStale = TRUE
  Halve = TRUE
INVARIANT Correct
PROPERTY Ends
CHECK_DEADLOCK FALSE
