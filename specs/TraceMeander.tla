----------------------------- MODULE TraceMeander -----------------------------
(* Recorded searches in corridors that are as long as can be. *)
EXTENDS Meander, Replay
Init ==
    /\ ReplayInit
    /\ len = Params.len /\ count = Params.count /\ down = Params.down /\ reach = Params.reach
    /\ at = Params.at
Do ==
    \/ On("bfs") /\ Bfs(E.k, E.r) /\ Ask
    \/ On("astar") /\ Astar(E.k, E.r) /\ Ask
    \/ On("ucs") /\ Ucs(E.k, E.r) /\ Ask
    \/ On("traced") /\ Traced(E.k, E.r) /\ Ask
    \/ On("circled") /\ Circled(E.k, E.r) /\ Ask
    \/ On("left") /\ Left(E.k, E.r) /\ Ask
    \/ On("shortcut") /\ Shortcut(E.k, E.j, E.r) /\ Ask
    \/ On("begin") /\ Begin
    \/ On("run") /\ Run(E.n, E.d, E.back)
    \/ On("end") /\ End
Next == \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED mevars
Spec == Init /\ [][Next]_<<mevars, sid, idx>>
=============================================================================
