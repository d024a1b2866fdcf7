---------------------------- MODULE TraceCompass ----------------------------
(* Recorded histories of directions against Compass and DirSource. *)
EXTENDS Compass, DirSource, Replay
Init == ReplayInit /\ heading = 0 /\ ahead = <<>> /\ aside = <<>>
Turns ==
    \/ On("face") /\ Face(E.d)
    \/ On("rotate") /\ Rotate(E.d, E.r)
    \/ On("flip") /\ Flip(E.r)
    \/ On("diagonal") /\ AskDiagonal(E.r)
    \/ On("next") /\ AskNext(E.diag, E.r)
    \/ On("vector") /\ Vector(E.r)
    \/ On("frompair") /\ FromPair(E.x, E.y, E.r)
    \/ On("fromtext") /\ FromText(E.s, E.r)
    \/ On("fromany") /\ FromAny(E.accepted, E.rejected)
    \/ On("names") /\ ReadNames(E.cardinal, E.shown, E.arrow, E.arrowchar, E.ascii, E.asciichar)
    \/ On("default") /\ E.r = 0 /\ heading' = 0
Enums ==
    \/ On("enumerate") /\ Enumerate(E.diag, E.r)
    \/ On("start") /\ StartEnum(E.diag)
    \/ On("take") /\ TakeOne(0, E.r)
    \/ On("nth") /\ TakeOne(E.n, E.r)
    \/ On("all") /\ TakeAll(E.r)
    \/ On("count") /\ CountAll(E.r)
    \/ On("last") /\ TakeLast(E.r)
    \/ On("save") /\ SaveEnum
    \/ On("swap") /\ SwapEnum
Step == (Turns /\ UNCHANGED enumvars) \/ (Enums /\ UNCHANGED compassvars)
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED <<compassvars, enumvars>>
Spec == Init /\ [][Next]_<<compassvars, enumvars, sid, idx>>
=============================================================================
