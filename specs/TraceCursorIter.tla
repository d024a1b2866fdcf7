--------------------------- MODULE TraceCursorIter ---------------------------
(* Recorded iterations over all positions, and single steps, against        *)
(* CursorIter.                                                               *)
EXTENDS CursorIter, Replay
Init ==
    /\ ReplayInit
    /\ xlo = Params.xlo /\ xhi = Params.xhi /\ ylo = Params.ylo /\ yhi = Params.yhi
    /\ across = Params.across
    /\ Start
Step ==
    \/ On("front") /\ Front /\ out' = E.r
    \/ On("back") /\ Back /\ out' = E.r
    \/ On("nth") /\ FrontNth(E.n, E.r)
    \/ On("nthback") /\ BackNth(E.n, E.r)
    \/ On("all") /\ All(E.r, 1)
    \/ On("allback") /\ All(E.r, -1)
    \/ On("count") /\ Count(E.r)
    \/ On("last") /\ E.r = end /\ Drop /\ out' = <<>> /\ UNCHANGED <<bounds, saved>>
    \/ On("save") /\ Save
    \/ On("swap") /\ Swap
    \/ On("step") /\ AskNext(E.order, E.p, E.r)
    \/ On("hint") /\ HintOK(E.lo, E.hi) /\ UNCHANGED citvars
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED citvars
Spec == Init /\ [][Next]_<<citvars, sid, idx>>
=============================================================================
