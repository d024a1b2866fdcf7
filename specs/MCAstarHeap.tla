----------------------------- MODULE MCAstarHeap -----------------------------
(* The ways back that A* leaves lead along a shortest path, on all small     *)
(* terrains, in whichever order entries of the same estimate come up.        *)
EXTENDS SmallTerrains, AstarHeap
CONSTANTS Diag, TheOrigin
Init == /\ Dims(WS, HS) /\ usable = Considered(Diag) /\ PickGo /\ cost = <<>>
        /\ orig \in TheOrigin \cap Cells /\ target \in Cells
        /\ Start
Next == Skip \/ Visit \/ GiveUp
Spec == Init /\ [][Next]_avars /\ WF_avars(Next)

RECURSIVE Trail(_, _)
\* What path reconstruction makes of the ways back
Trail(p, trail) ==
    IF p = orig THEN <<"ok", trail>>
    ELSE IF from[p] = -1 \/ Beside(p, from[p]) = -1 THEN <<"err", "InvalidMovement">>
    ELSE IF Len(trail) >= w * h THEN <<"err", "Loop">>
    ELSE Trail(Beside(p, from[p]), <<Opposite(from[p])>> \o trail)
PS == INSTANCE PathSearch WITH dist <- [p \in Cells |-> TrueDist(p)], cheap <- <<>>
Correct == /\ done = "found" => PS!Astar(target, Trail(target, <<>>))
           /\ done = "none" => PS!Astar(target, PS!Unreachable)
Ends == <>(done # "")

\* The iterator, which goes on until the heap is empty, does what AstarOrder allows
Visited == { p \in Cells : from[p] # -1 }
AO == INSTANCE AstarOrder WITH settled <- Visited, dist <- [p \in Cells |-> TrueDist(p)]
Refines == [][Visit => \E p \in Cells :
                     /\ Visited' = Visited \cup {p}
                     /\ AO!First(p) \/ AO!Following(p, from'[p])]_avars
EndsWithAll == done = "none" => AO!AllSettled
=============================================================================
