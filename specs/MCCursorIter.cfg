CONSTANTS W = 3 H = 3 Copies = FALSE
SPECIFICATION Spec
INVARIANTS Sane LeftIsRight StartsRight StepsRight
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
