-------------------------- MODULE TraceHintedSource --------------------------
(* Recorded uses of iterators against HintedSource. *)
EXTENDS HintedSource, Replay
Init == ReplayInit /\ left = Params.n
Step ==
    \/ On("take") /\ Give(E.k)
    \/ On("hint") /\ Hint(E.lo, E.hi)
    \/ On("hintpart") /\ HintPart(E.k, E.lo, E.hi)
    \/ On("end") /\ End
    \/ On("rest") /\ Rest
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED left
Spec == Init /\ [][Next]_<<left, sid, idx>>
=============================================================================
