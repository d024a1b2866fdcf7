---------------------------- MODULE TraceRanking ----------------------------
(* Recorded comparisons against Ranking. *)
EXTENDS Ranking, Replay
Init ==
    /\ ReplayInit
    /\ items = Params.items /\ numeric = Params.numeric
    /\ Start
Do ==
    \/ On("compare") /\ Compare(E.eq, E.order, E.hash)
    \/ On("loosely") /\ Loosely(E.eq, E.order)
    \/ On("sorted") /\ Sorted(E.r)
    \/ On("extremes") /\ Extremes(E.i, E.j, E.least, E.greatest)
    \/ On("distinct") /\ Distinct(E.n)
Next == \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED rkvars
Spec == Init /\ [][Next]_<<rkvars, sid, idx>>
=============================================================================
