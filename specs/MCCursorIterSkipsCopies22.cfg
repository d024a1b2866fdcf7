CONSTANTS W = 2 H = 2 Copies = TRUE
SPECIFICATION SpecAll
INVARIANTS Sane LeftIsRight
PROPERTIES MeansIt Refines
CHECK_DEADLOCK FALSE
