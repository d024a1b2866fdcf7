SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK TRUE
