CONSTANTS W = 3 H = 1 Values = {0, 1}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
