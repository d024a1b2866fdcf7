--------------------------- MODULE TracePathSearch ---------------------------
(* Recorded path searches against PathSearch. *)
EXTENDS PathSearch, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h /\ usable = Considered(Params.diag)
    /\ go = Params.go /\ cost = Params.cost /\ orig = Params.orig
    /\ Start
Do ==
    \/ On("bfs") /\ Answer(Bfs({ E.goals[i] : i \in DOMAIN E.goals }, E.r))
    \/ On("astar") /\ Answer(Astar(E.dest, E.r))
    \/ On("ucs") /\ Answer(Ucs(E.dest, E.r))
Next == \/ More /\ Survey /\ UNCHANGED <<sid, idx>>
        \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED psvars
Spec == Init /\ [][Next]_<<psvars, sid, idx>>
=============================================================================
