CONSTANTS MaxW = 6 MaxH = 6
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
