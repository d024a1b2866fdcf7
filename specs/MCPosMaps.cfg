CONSTANTS N = 3 Values = {0, 1, 2}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
