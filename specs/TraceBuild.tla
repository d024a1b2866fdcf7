----------------------------- MODULE TraceBuild -----------------------------
(* Attempts to compile programs that are to be accepted. *)
EXTENDS Replay
Init == ReplayInit
Next == \/ More /\ Take /\ On("compile") /\ E.r = "accepted"
        \/ Finished
Spec == Init /\ [][Next]_<<sid, idx>>
=============================================================================
