CONSTANTS Variant = "bits" MaxW = 7 MaxH = 7
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
