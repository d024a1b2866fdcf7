------------------------------ MODULE DirSource ------------------------------
(***************************************************************************)
(* Enumerations of directions (property C08): `ahead` is what one has      *)
(* still to give.  It may be copied; the copy then goes its own way.       *)
(***************************************************************************)
EXTENDS Directions

VARIABLES ahead,
          aside     \* a copy: <<>> or <<its ahead>>
enumvars == <<ahead, aside>>

\* All the considered directions, clockwise from North
Listed(diag) == IF diag THEN <<0, 1, 2, 3, 4, 5, 6, 7>> ELSE <<0, 2, 4, 6>>
Enumerate(diag, r) == r = Listed(diag) /\ UNCHANGED enumvars
Rest(n) == IF n >= Len(ahead) THEN <<>> ELSE SubSeq(ahead, n + 1, Len(ahead))
StartEnum(diag) == ahead' = Listed(diag) /\ aside' = <<>>
\* Skip n directions and take one
TakeOne(n, r) == /\ r = IF n < Len(ahead) THEN <<ahead[n + 1]>> ELSE <<>>
                 /\ ahead' = Rest(n + 1) /\ UNCHANGED aside
TakeAll(r) == r = ahead /\ ahead' = <<>> /\ UNCHANGED aside
CountAll(n) == n = Len(ahead) /\ ahead' = <<>> /\ UNCHANGED aside
TakeLast(r) == /\ r = IF ahead = <<>> THEN <<>> ELSE <<ahead[Len(ahead)]>>
               /\ ahead' = <<>> /\ UNCHANGED aside
SaveEnum == aside' = <<ahead>> /\ UNCHANGED ahead
SwapEnum == aside # <<>> /\ ahead' = aside[1] /\ aside' = <<ahead>>
=============================================================================
