CONSTANTS MaxSide = 12 Variant = "ok"
SPECIFICATION Spec
INVARIANTS Verdicts MacrosFit
CHECK_DEADLOCK FALSE
