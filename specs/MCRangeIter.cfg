CONSTANTS N = 2 Copies = FALSE
SPECIFICATION Spec
INVARIANTS Sane LeftIsRight
PROPERTIES Refines Ends MeansIt
CHECK_DEADLOCK FALSE
