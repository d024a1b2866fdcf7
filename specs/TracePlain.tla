------------------------------ MODULE TracePlain ------------------------------
(* Recorded searches on large grids without obstacles. *)
EXTENDS Plain, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h /\ usable = Considered(Params.diag)
    /\ ox = Params.ox /\ oy = Params.oy /\ step = 0
Do ==
    \/ On("layer") /\ Layer(E.r)
    \/ On("end") /\ End
    \/ On("order") /\ Order(E.cells, E.backs, E.ranks, FALSE) = TRUE /\ Ask
    \/ On("costorder") /\ Order(E.cells, E.backs, E.ranks, TRUE) = TRUE /\ Ask
    \/ On("path") /\ Path(E.x, E.y, E.r) /\ Ask
    \/ On("nearest") /\ Nearest({ E.goals[i] : i \in DOMAIN E.goals }, E.r) /\ Ask
Next == \/ More /\ Take /\ Do
        \/ Finished /\ UNCHANGED plvars
Spec == Init /\ [][Next]_<<plvars, sid, idx>>
=============================================================================
