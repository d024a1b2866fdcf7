CONSTANTS W = 2 H = 2 Copies = TRUE
SPECIFICATION Spec
INVARIANTS Sane LeftIsRight StartsRight StepsRight
PROPERTIES Refines
CHECK_DEADLOCK FALSE
