CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS TypeOK Safe Decided Exact Arith
CHECK_DEADLOCK TRUE
