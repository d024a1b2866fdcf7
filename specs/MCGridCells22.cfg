CONSTANTS W = 2 H = 2 Values = {0, 1}
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
