SPECIFICATION Spec
CONSTANTS
  Lens = {2, 3, 4}
  Counts = {1, 2, 3}
INVARIANTS AsClaimed
CHECK_DEADLOCK TRUE
