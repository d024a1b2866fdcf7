CONSTANTS W = 2 H = 1 Ids = {1, 2, 3, 4, 5, 6} Labels = {7} InHand = 1
SPECIFICATION Spec
INVARIANTS Safe Whole
PROPERTIES Refines
CONSTRAINT Few
CHECK_DEADLOCK FALSE
