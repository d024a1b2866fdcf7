CONSTANTS B = 2 Words = 3 CleanPadding = TRUE W = 5 H = 1
SPECIFICATION Spec
INVARIANT EqualWhenSame
PROPERTIES Refines Stepwise
CHECK_DEADLOCK FALSE
