SPECIFICATION Spec
CONSTANTS
  WS = {1, 2, 3, 5}
  HS = {1, 2, 4}
INVARIANTS SameBacks SameEnd SameLayer Counted
CHECK_DEADLOCK TRUE
