SPECIFICATION Spec
CONSTANTS
  WS = {2}
  HS = {2}
  Kind = "edges"
  Diag = FALSE
  Costs <- FewCosts
  TheOrigin = {0}
INVARIANTS Right Answerable
CHECK_DEADLOCK FALSE
