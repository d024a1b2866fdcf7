CONSTANTS MaxSide = 12 Variant = "unchecked"
SPECIFICATION Spec
INVARIANTS Verdicts MacrosFit
CHECK_DEADLOCK FALSE
