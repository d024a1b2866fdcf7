CONSTANTS
    Shapes <- SomeShapes
    Fmts <- SomeFmts
    Contents <- SomeContents
    Variant = "late"
SPECIFICATION Spec
INVARIANTS Count Readable
PROPERTY Prints
CHECK_DEADLOCK FALSE
