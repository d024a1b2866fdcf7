CONSTANTS N = 3
SPECIFICATION Spec
INVARIANTS Ranked AllAccepted Sortable
CHECK_DEADLOCK FALSE
