---------------------------- MODULE TraceDeIter ----------------------------
(* Recorded iterations over integers against DeIter. *)
EXTENDS DeIter, Replay
Init == ReplayInit /\ NewIter(Params.lo, Params.hi)
Step ==
    \/ On("front") /\ Front /\ out' = E.r
    \/ On("back") /\ Back /\ out' = E.r
    \/ On("nth") /\ FrontNth(E.n) /\ out' = E.r
    \/ On("nthback") /\ BackNth(E.n) /\ out' = E.r
    \/ On("all") /\ All(E.r, TRUE)
    \/ On("allback") /\ All(E.r, FALSE)
    \/ On("count") /\ Count(E.r)
    \/ On("last") /\ LastOne(E.r)
    \/ On("hint") /\ HintOK(E.lo, E.hi) /\ UNCHANGED itvars
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED itvars
Spec == Init /\ [][Next]_<<itvars, sid, idx>>
=============================================================================
