CONSTANTS Wrap = 3 MaxW = 2 MaxH = 2 Over = 2
SPECIFICATION Spec
PROPERTIES Refines Agrees Ends
CHECK_DEADLOCK FALSE
