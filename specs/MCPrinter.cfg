CONSTANTS
    Shapes <- SomeShapes
    Fmts <- SomeFmts
    Contents <- SomeContents
    Variant = "ok"
SPECIFICATION Spec
INVARIANTS Count Readable
PROPERTY Prints
CHECK_DEADLOCK FALSE
