SPECIFICATION Spec
CONSTANTS
  GoOn = TRUE
  WS = {3}
  HS = {3}
  Kind = "cells"
  Diag = TRUE
  TheOrigin = {0,5}
  SkipStale = FALSE
  Halve = TRUE
INVARIANT EndsWithAll
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
