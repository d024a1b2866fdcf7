SPECIFICATION Spec
CONSTANTS
  GoOn = FALSE
  WS = {4}
  HS = {3}
  Kind = "cells"
  Diag = TRUE
  TheOrigin = {0, 5}
  SkipStale = TRUE
  Halve = FALSE
INVARIANT Correct
PROPERTY Ends
CHECK_DEADLOCK FALSE
