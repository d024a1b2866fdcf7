---------------------------- MODULE TracePosMaps ----------------------------
(* Recorded uses of the map and set backends against PosMaps. *)
EXTENDS PosMaps, Replay
Init == ReplayInit /\ n = Params.n /\ map = [p \in Cells |-> 0] /\ set = {}
Step ==
    \/ On("new") /\ New(E.v)
    \/ On("put") /\ Put(E.p, E.v)
    \/ On("get") /\ Get(E.p, E.r)
    \/ On("newset") /\ NewSet
    \/ On("insert") /\ Insert(E.p)
    \/ On("remove") /\ Remove(E.p)
    \/ On("setto") /\ SetTo(E.p, E.v)
    \/ On("contains") /\ Contains(E.p, E.r)
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED pmvars
Spec == Init /\ [][Next]_<<pmvars, sid, idx>>
=============================================================================
