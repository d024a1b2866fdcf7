------------------------------ MODULE Directions ------------------------------
(***************************************************************************)
(* Directions (properties C08 and C09).                                    *)
(*                                                                         *)
(* A direction is 0..7, clockwise from north: N NE E SE S SW W NW, so its  *)
(* angle is 45 degrees times that.                                         *)
(***************************************************************************)
EXTENDS BigInt

Dirs == 0..7
IsDiag(d) == d % 2 = 1
Diagonals == {1, 3, 5, 7}
Names == <<"N", "NE", "E", "SE", "S", "SW", "W", "NW">>
Name(d) == Names[d + 1]

\* The vectors, x towards the east and y towards the south
DX(d) == CASE d \in {1, 2, 3} -> 1 [] d \in {5, 6, 7} -> -1 [] OTHER -> 0
DY(d) == CASE d \in {3, 4, 5} -> 1 [] d \in {7, 0, 1} -> -1 [] OTHER -> 0

Turn(a, b) == (a + b) % 8
Opposite(d) == Turn(d, 4)

\* Directions considered when diagonals are enabled or not
Considered(diag) == IF diag THEN Dirs ELSE Dirs \ Diagonals

\* Successor in the enumeration: <<>> or <<direction>>
Successor(d, diag) ==
    LET later == { e \in Considered(diag) : e > d }
    IN IF later = {} THEN <<>>
       ELSE <<CHOOSE e \in later : \A f \in later : e <= f>>

\* Symbols, as Unicode code points
Arrow == <<8593, 8599, 8594, 8600, 8595, 8601, 8592, 8598>>
Ascii == <<94, 55, 62, 92, 118, 76, 60, 96>>
Letters == { <<78, 0>>, <<110, 0>>, <<69, 2>>, <<101, 2>>, <<83, 4>>, <<115, 4>>, <<87, 6>>, <<119, 6>> }
Alphabet == Letters
            \cup { <<Arrow[d + 1], d>> : d \in Dirs }
            \cup { <<Ascii[d + 1], d>> : d \in Dirs }
Unicode == 1114112 - 2048   \* number of characters

Parse(chars) ==
    IF \E d \in Dirs : Len(chars) = 1 /\ <<chars[1], d>> \in Alphabet
    THEN <<"ok", CHOOSE d \in Dirs : <<chars[1], d>> \in Alphabet>>
    ELSE <<"err", "DirParseError">>

FromVector(x, y) ==
    IF \E d \in Dirs : x = BigOf(DX(d)) /\ y = BigOf(DY(d))
    THEN <<"ok", CHOOSE d \in Dirs : x = BigOf(DX(d)) /\ y = BigOf(DY(d))>>
    ELSE <<"err", "InvalidDirection">>
=============================================================================
