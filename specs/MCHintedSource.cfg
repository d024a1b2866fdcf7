CONSTANTS Kinds = {"exact", "filtered", "unknown"} MaxLen = 6
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
