SPECIFICATION Spec
CONSTANTS
  Lens = {2, 3, 4, 5}
  Counts = {1, 2, 3, 4}
INVARIANTS Together SameEnd Single Inside LocalMoves Leads Maximal
CHECK_DEADLOCK TRUE
