-------------------------- MODULE TraceUniformCost --------------------------
(* Recorded uniform-cost iterations against UniformCost. *)
EXTENDS UniformCost, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h /\ usable = Considered(Params.diag)
    /\ go = Params.go /\ cost = Params.cost /\ orig = Params.orig
    /\ Start
Do ==
    \/ On("next") /\ Step(E.p, E.d)
    \/ On("end") /\ End
Next == \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED ucvars
Spec == Init /\ [][Next]_<<ucvars, sid, idx>>
=============================================================================
