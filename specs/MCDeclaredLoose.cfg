CONSTANTS MaxSide = 12 Variant = "loose"
SPECIFICATION Spec
INVARIANTS Verdicts MacrosFit
CHECK_DEADLOCK FALSE
