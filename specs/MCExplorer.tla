----------------------------- MODULE MCExplorer -----------------------------
(* Who only asks like that never leaves what can be reached, and who asks    *)
(* for everything reaches all of it, in whichever order.                     *)
EXTENDS SmallTerrains, Explorer
CONSTANT Diag
VARIABLE asked
Init == /\ Dims(WS, HS) /\ usable = Considered(Diag) /\ PickGo /\ cost = <<>>
        /\ orig \in Cells /\ Start /\ asked = {}
Open == { a \in AllEdges : a[1] \in reached } \ asked
Next == \E a \in Open : Ask(a[1], a[2], Dest(a[1], a[2])) /\ asked' = asked \cup {a}
Spec == Init /\ [][Next]_<<exvars, asked>> /\ WF_<<exvars, asked>>(Next)
OnlyReachable == \A p \in reached : Walkable(p)
AllReachable == Open = {} => \A p \in Cells : Walkable(p) => p \in reached
Ends == <>(Open = {})
=============================================================================
