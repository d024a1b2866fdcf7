CONSTANTS Kinds = {"fresh"} MaxLen = 6
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
