CONSTANTS W = 3 H = 3 Copies = FALSE
SPECIFICATION SpecAll
INVARIANTS Sane LeftIsRight
PROPERTIES MeansIt Refines Ends
CHECK_DEADLOCK FALSE
