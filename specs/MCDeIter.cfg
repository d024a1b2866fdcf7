CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Sane HintExact HintMeaning
PROPERTY Refines MeansIt
