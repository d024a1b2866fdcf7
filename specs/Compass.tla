------------------------------- MODULE Compass -------------------------------
(***************************************************************************)
(* Operations on directions (properties C08 and C09): `heading` is a       *)
(* direction register; the actions are the operations with their outcomes. *)
(***************************************************************************)
EXTENDS Directions

VARIABLE heading
compassvars == <<heading>>

Face(d) == heading' = d
Rotate(d, r) == r = Turn(heading, d) /\ heading' = r
Flip(r) == r = Opposite(heading) /\ heading' = r
AskDiagonal(r) == r = IsDiag(heading) /\ UNCHANGED heading
\* The successor; when there is one, go on from there.  The enumeration without
\* diagonals says nothing about a diagonal, but asking is safe.
AskNext(diag, r) == /\ IF heading \in Considered(diag)
                       THEN r = Successor(heading, diag)
                       ELSE r \in {<<>>} \cup { <<d>> : d \in Dirs }
                    /\ heading' = IF r = <<>> THEN heading ELSE r[1]
Vector(r) == r = <<BigOf(DX(heading)), BigOf(DY(heading))>> /\ UNCHANGED heading
FromPair(x, y, r) == /\ r = FromVector(x, y)
                     /\ heading' = IF r[1] = "ok" THEN r[2] ELSE heading
FromText(chars, r) == /\ r = Parse(chars)
                      /\ heading' = IF r[1] = "ok" THEN r[2] ELSE heading
\* All characters at once: exactly the alphabet is accepted
FromAny(accepted, rejected) ==
    /\ { accepted[i] : i \in DOMAIN accepted } = Alphabet
    /\ Len(accepted) + rejected = Unicode
    /\ \A i, j \in DOMAIN accepted : i # j => accepted[i] # accepted[j]
    /\ UNCHANGED heading
ReadNames(cardinal, shown, arrow, arrowchar, ascii, asciichar) ==
    /\ cardinal = Name(heading) /\ shown = Name(heading)
    /\ arrow = <<Arrow[heading + 1]>> /\ arrowchar = Arrow[heading + 1]
    /\ ascii = <<Ascii[heading + 1]>> /\ asciichar = Ascii[heading + 1]
    /\ UNCHANGED heading
=============================================================================
