CONSTANTS Wrap = 0 MaxW = 3 MaxH = 2 Over = 1
SPECIFICATION Spec
PROPERTIES Refines Agrees Ends
CHECK_DEADLOCK FALSE
