CONSTANTS N = 1 Copies = TRUE
SPECIFICATION Spec
INVARIANTS Sane LeftIsRight
PROPERTIES Refines MeansIt
CHECK_DEADLOCK FALSE
