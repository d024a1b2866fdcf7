SPECIFICATION Spec
CONSTANTS
  WS = {2}
  HS = {2}
  Kind = "edges"
  Diag = FALSE
INVARIANTS OnlyReachable AllReachable
PROPERTY Ends
CHECK_DEADLOCK FALSE
