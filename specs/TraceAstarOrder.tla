--------------------------- MODULE TraceAstarOrder ---------------------------
(* Recorded A* iterations against AstarOrder. *)
EXTENDS AstarOrder, Replay
PS == INSTANCE PathSearch WITH cheap <- <<>>
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h /\ usable = Considered(Params.diag)
    /\ go = Params.go /\ cost = <<>> /\ orig = Params.orig
    /\ settled = {} /\ dist = <<>>
Do ==
    \/ /\ On("next")
       /\ \/ First(E.p) /\ dist' = PS!Distances
          \/ Following(E.p, E.d) /\ UNCHANGED dist
       /\ settled' = settled \cup {E.p}
       /\ UNCHANGED terrain
    \/ On("end") /\ End
Next == \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED aovars
Spec == Init /\ [][Next]_<<aovars, sid, idx>>
=============================================================================
