SPECIFICATION Spec
INVARIANTS Same Algebra
CHECK_DEADLOCK FALSE
