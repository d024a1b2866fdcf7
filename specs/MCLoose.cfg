CONSTANTS N = 3 Cells = 2
SPECIFICATION Spec
INVARIANTS Accepted Shortcut
CHECK_DEADLOCK FALSE
