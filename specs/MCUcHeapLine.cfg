SPECIFICATION Spec
CONSTANTS
  WS = {3}
  HS = {1}
  Kind = "edges"
  Diag = FALSE
  Costs <- SomeCosts
  TheOrigin = {0,1,2}
  SkipStale = TRUE
INVARIANTS EndsWithIt SettledAreCheapest
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
