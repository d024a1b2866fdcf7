--------------------------- MODULE TraceRangeIter ---------------------------
(* Recorded iterations over rectangles, lines and columns against RangeIter. *)
EXTENDS RangeIter, Replay
Init ==
    /\ ReplayInit
    /\ left = Params.left /\ top = Params.top /\ right = Params.right /\ bottom = Params.bottom
    /\ Assert(BigLe(left, right) /\ BigLe(top, bottom), "bad input")
    /\ Start
Step ==
    \/ On("front") /\ Front /\ out' = E.r
    \/ On("nth") /\ FrontNth(E.n, E.r)
    \/ On("all") /\ All(E.r)
    \/ On("last") /\ LastOne(E.r)
    \/ On("save") /\ Save
    \/ On("swap") /\ Swap
    \/ On("count") /\ Count(E.r)
    \/ On("hint") /\ HintOK(E.lo, E.hi) /\ UNCHANGED ritvars
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED ritvars
Spec == Init /\ [][Next]_<<ritvars, sid, idx>>
=============================================================================
