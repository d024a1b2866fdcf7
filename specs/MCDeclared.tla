----------------------------- MODULE MCDeclared -----------------------------
(***************************************************************************)
(* How the compiler comes to its verdict: each constructor evaluates an    *)
(* expression over unsigned constants, where going below zero is an error  *)
(* as well; and what the helper macros make of the dimensions.             *)
(* "loose" has no lower limit of the number of words; "unchecked" has a    *)
(* constructor that does not evaluate the expression, as collect() of      *)
(* grids once did.                                                         *)
(***************************************************************************)
EXTENDS Declared
CONSTANTS MaxSide, Variant
VARIABLES errors
vars == <<faults, errors>>
Init == faults = 0 /\ errors = 0

\* Unsigned subtraction: <<>> is an error
Minus(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE IF a[1] < b[1] THEN <<>> ELSE <<a[1] - b[1]>>
\* impl_assert!: 0 - !condition
Assert(c) == Minus(<<0>>, IF c = <<>> THEN <<>> ELSE IF c[1] THEN <<0>> ELSE <<1>>)
BitsCondition(w, h, words) ==
    IF w * h > words * 32 THEN <<FALSE>>   \* && does not look at the other side
    ELSE IF Variant = "loose" THEN <<TRUE>>
    ELSE LET m == Minus(<<words * 32>>, <<32>>)
         IN IF m = <<>> THEN <<>> ELSE <<w * h >= m[1]>>
Constructors == {"evaluates", "calls another", "collect"}
Evaluated(c) == c # "collect" \/ Variant # "unchecked"
Error(d, c) ==
    /\ Evaluated(c)
    /\ Assert(IF d.k = "grid" THEN <<d.w * d.h = d.n>> ELSE BitsCondition(d.w, d.h, d.n)) = <<>>

Side == 1..MaxSide
MacroWords(w, h) == (w * h + 31) \div 32
SqridWords(w, h) == (w * h) \div 32 + 1
DeclareGrid ==
  \E w, h \in Side, n \in 0..(MaxSide * MaxSide + 2), c \in Constructors :
    LET d == [k |-> "grid", w |-> w, h |-> h, n |-> n]
    IN Declare(d) /\ errors' = errors + (IF Error(d, c) THEN 1 ELSE 0)
DeclareBits ==
  \E w, h \in Side, n \in 0..((MaxSide * MaxSide) \div 16), c \in Constructors :
    LET d == [k |-> "bits", w |-> w, h |-> h, n |-> n]
    IN Declare(d) /\ errors' = errors + (IF Error(d, c) THEN 1 ELSE 0)
Next == faults < 2 /\ errors < 2 /\ (DeclareGrid \/ DeclareBits)
Spec == Init /\ [][Next]_vars
Verdicts == (errors = 0) = (faults = 0)
MacrosFit ==
    \A w, h \in Side :
        /\ GridFits(w, h, w * h)
        /\ BitsFit(w, h, MacroWords(w, h)) /\ BitsFit(w, h, SqridWords(w, h))
        /\ \A n \in 0..((MaxSide * MaxSide) \div 16) :
              BitsFit(w, h, n) <=> n \in {MacroWords(w, h), SqridWords(w, h)}
=============================================================================
