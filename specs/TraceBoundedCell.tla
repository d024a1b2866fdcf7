-------------------------- MODULE TraceBoundedCell --------------------------
(* Recorded histories of bounded integers against BoundedCell. *)
EXTENDS BoundedCell, Replay

Init ==
    /\ ReplayInit
    /\ lo = Params.lo /\ hi = Params.hi
    /\ val = Params.lo

Step ==
    \/ On("create") /\ Create(E.a, E.r)
    \/ On("unwrap") /\ CreateUnwrap(E.a, E.r)
    \/ On("add") /\ Add(E.a, E.r)
    \/ On("sub") /\ Sub(E.a, E.r)
    \/ On("inc") /\ Inc(E.r)
    \/ On("dec") /\ Dec(E.r)
    \/ On("default") /\ Default(E.r)
    \/ On("read") /\ Read(E.r)
    \/ On("toindex") /\ ToIndex(E.r)
    \/ On("cmp") /\ Compare(E.a, E.r)
    \/ On("bounds") /\ Bounds(E.r)
    \/ On("frombool") /\ FromBool(E.a, E.r)

Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_<<vars, sid, idx>>
=============================================================================
