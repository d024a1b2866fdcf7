--------------------------- MODULE TraceAgreement ---------------------------
(* Recorded answers of all searches to the same question. *)
EXTENDS Agreement, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h /\ usable = Considered(Params.diag)
    /\ go = Params.go /\ cost = Params.cost /\ orig = Params.orig
    /\ Start
Do ==
    \/ On("found") /\ Found(E.r)
    \/ On("layered") /\ Layered(E.step)
Next == \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED agvars
Spec == Init /\ [][Next]_<<agvars, sid, idx>>
=============================================================================
