CONSTANTS W = 2 H = 2 Copies = FALSE
SPECIFICATION SpecAll
INVARIANTS Sane LeftIsRight
PROPERTIES MeansIt Refines Ends
CHECK_DEADLOCK FALSE
