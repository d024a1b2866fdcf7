---------------------------- MODULE TraceDeclared ----------------------------
(* Recorded verdicts of the compiler against Declared. *)
EXTENDS Declared, Replay
Init == ReplayInit /\ faults = 0
Step == \/ On("declare") /\ Declare(E)
        \/ On("compile") /\ Compile(E.r)
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED faults
Spec == Init /\ [][Next]_<<faults, sid, idx>>
=============================================================================
