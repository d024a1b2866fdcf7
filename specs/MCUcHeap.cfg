SPECIFICATION Spec
CONSTANTS
  WS = {2}
  HS = {2}
  Kind = "edges"
  Diag = FALSE
  Costs <- FewCosts
  TheOrigin = {0}
  SkipStale = TRUE
INVARIANTS EndsWithIt SettledAreCheapest
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
