-------------------------- MODULE TraceBreadthFirst --------------------------
(* Recorded breadth-first iterations against BreadthFirst. *)
EXTENDS BreadthFirst, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h /\ usable = Considered(Params.diag)
    /\ go = Params.go /\ cost = <<>> /\ orig = Params.orig
    /\ Start
Do ==
    \/ On("layer") /\ Step(E.r)
    \/ On("end") /\ End
Next == \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED bfvars
Spec == Init /\ [][Next]_<<bfvars, sid, idx>>
=============================================================================
