CONSTANTS
    Shapes <- SomeShapes
    Fmts <- SomeFmts
    Contents <- SomeContents
    Variant = "left"
SPECIFICATION Spec
INVARIANTS Count Readable
PROPERTY Prints
CHECK_DEADLOCK FALSE
