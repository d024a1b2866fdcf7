---------------------------- MODULE TraceExplorer ----------------------------
(* The calls that searches make against Explorer. *)
EXTENDS Explorer, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h /\ usable = Considered(Params.diag)
    /\ go = Params.go /\ cost = <<>> /\ orig = Params.orig
    /\ Start
Do ==
    \/ On("ask") /\ Ask(E.p, E.d, E.q)
    \/ On("judge") /\ Judge(E.p)
Next == \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED exvars
Spec == Init /\ [][Next]_<<exvars, sid, idx>>
=============================================================================
