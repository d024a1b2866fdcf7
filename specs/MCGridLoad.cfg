CONSTANTS Wrap = 0 MaxW = 2 MaxH = 3 Over = 1
SPECIFICATION Spec
PROPERTIES Refines Agrees Ends
CHECK_DEADLOCK FALSE
