---------------------------- MODULE TraceCameFrom ----------------------------
(* Recorded path reconstructions against CameFrom; the steps of the walker  *)
(* are not observed.                                                         *)
EXTENDS CameFrom, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h /\ usable = Dirs
    /\ go = <<>> /\ cost = <<>> /\ orig = Params.orig
    /\ way = Params.way
    /\ Idle
Do ==
    \/ On("ask") /\ Ask(E.dest)
    \/ On("outcome") /\ Outcome(E.r)
Next == \/ More /\ Take /\ Do
        \/ More /\ Follow /\ UNCHANGED <<sid, idx>>
        \/ Finished /\ UNCHANGED cfvars
Spec == Init /\ [][Next]_<<cfvars, sid, idx>>
=============================================================================
