CONSTANTS B = 3 Words = 2 CleanPadding = TRUE W = 2 H = 2
SPECIFICATION Spec
INVARIANT EqualWhenSame
PROPERTIES Refines Stepwise
CHECK_DEADLOCK FALSE
