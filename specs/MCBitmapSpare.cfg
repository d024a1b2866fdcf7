CONSTANTS B = 3 Words = 2 CleanPadding = TRUE W = 3 H = 1
SPECIFICATION Spec
INVARIANT EqualWhenSame
PROPERTIES Refines Stepwise
CHECK_DEADLOCK FALSE
