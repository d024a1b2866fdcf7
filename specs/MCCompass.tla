------------------------------ MODULE MCCompass ------------------------------
EXTENDS Compass, DirSource, FiniteSets, TLC
Init == heading \in Dirs /\ \E g \in BOOLEAN : ahead = Listed(g) /\ aside = <<>>
DoRotate == \E d, r \in Dirs : Rotate(d, r)
DoFlip == \E r \in Dirs : Flip(r)
DoNext == \E g \in BOOLEAN, r \in {<<>>} \cup { <<d>> : d \in Dirs } : AskNext(g, r)
DoPair == \E x, y \in -2..2, r \in {<<"err", "InvalidDirection">>} \cup { <<"ok", d>> : d \in Dirs } :
            FromPair(BigOf(x), BigOf(y), r)
Answers == {<<>>} \cup { <<d>> : d \in Dirs }
DoEnum == \/ \E n \in 0..9, r \in Answers : TakeOne(n, r)
          \/ TakeAll(ahead) \/ CountAll(Len(ahead)) \/ \E r \in Answers : TakeLast(r)
          \/ aside = <<>> /\ SaveEnum
          \/ SwapEnum
Next == \/ (DoRotate \/ DoFlip \/ DoNext \/ DoPair) /\ UNCHANGED enumvars
        \/ DoEnum /\ UNCHANGED compassvars
Spec == Init /\ [][Next]_<<compassvars, enumvars>>

TypeOK == heading \in Dirs
\* What an enumeration has still to give is one and its successors
RECURSIVE From(_, _)
From(d, g) == <<d>> \o (IF Successor(d, g) = <<>> THEN <<>> ELSE From(Successor(d, g)[1], g))
EnumSane == \A s \in {ahead} \cup { aside[i] : i \in DOMAIN aside } :
              \/ s = <<>>
              \/ s = From(s[1], TRUE) \/ s = From(s[1], FALSE)
\* A cyclic group of order 8 with the half turn as reversal
Group ==
    \A b, c \in Dirs :
        /\ Turn(Turn(heading, b), c) = Turn(heading, Turn(b, c))
        /\ Turn(heading, 0) = heading
        /\ Turn(heading, b) = Turn(b, heading)
        /\ \E inv \in Dirs : Turn(heading, inv) = 0
Reversal == /\ Opposite(Opposite(heading)) = heading
            /\ Opposite(heading) # heading
            /\ DX(Opposite(heading)) = -DX(heading) /\ DY(Opposite(heading)) = -DY(heading)
\* Turning by 90 degrees maps (x, y) to (-y, x)
Quarter == /\ DX(Turn(heading, 2)) = -DY(heading)
           /\ DY(Turn(heading, 2)) = DX(heading)
DiagonalMeaning == IsDiag(heading) <=> (DX(heading) # 0 /\ DY(heading) # 0)
VectorsDistinct ==
    \A d \in Dirs : (DX(d) = DX(heading) /\ DY(d) = DY(heading)) => d = heading
AllVectors == { <<DX(d), DY(d)>> : d \in Dirs } = ((-1..1) \X (-1..1)) \ {<<0, 0>>}
SymbolsDistinct == \A a, b \in Alphabet : a[1] = b[1] => a = b
AlphabetSize == Cardinality(Alphabet) = 24
\* Following the successors from the start enumerates everything considered
RECURSIVE Chain(_, _)
Chain(d, g) == <<d>> \o (IF Successor(d, g) = <<>> THEN <<>> ELSE Chain(Successor(d, g)[1], g))
Chains == /\ Chain(0, TRUE) = <<0, 1, 2, 3, 4, 5, 6, 7>>
          /\ Chain(0, FALSE) = <<0, 2, 4, 6>>
RoundTrip == /\ FromVector(BigOf(DX(heading)), BigOf(DY(heading))) = <<"ok", heading>>
             /\ Parse(<<Arrow[heading + 1]>>) = <<"ok", heading>>
             /\ Parse(<<Ascii[heading + 1]>>) = <<"ok", heading>>
             /\ ~IsDiag(heading) => \E l \in Letters : l[2] = heading
=============================================================================
