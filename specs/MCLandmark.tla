----------------------------- MODULE MCLandmark -----------------------------
(* How loops are found (property C26), for all came-from maps of small       *)
(* grids: the walker remembers the position after 1, 2, 4... steps, and has  *)
(* gone round in a circle when it comes there again.  It stops after at most *)
(* three times as many steps as it has seen positions, whatever the size of  *)
(* the grid, and with the outcome that CameFrom has by counting cells.       *)
EXTENDS CameFrom, FiniteSets, TLC
CONSTANTS WS, HS, Ways, Later(_)
VARIABLES landmark, due, met, been
lmvars == <<cfvars, landmark, due, met, been>>
SomeWays == {-1, 0, 2, 4, 6}
LineWays == {-1, 2, 6}
AllWays == {-1} \cup Dirs
Doubled(n) == 2 * n
Never(n) == 0

Init == /\ w \in WS /\ h \in HS /\ usable = Dirs /\ go = <<>> /\ cost = <<>>
        /\ orig \in Cells /\ way \in [1..(w * h) -> Ways]
        /\ Idle /\ landmark = -1 /\ due = 0 /\ met = FALSE /\ been = {}
Start == \E d \in Cells : Ask(d) /\ landmark' = d /\ due' = 1 /\ met' = FALSE /\ been' = {d}
Walking == dest # -1 /\ Way(dest) # -1 /\ ~Arrived /\ ~Lost /\ ~met
Step == /\ Walking
        /\ at' = Beside(at, Way(at)) /\ trail' = <<Opposite(Way(at))>> \o trail
        /\ met' = (at' = landmark)
        /\ been' = been \cup {at'}
        /\ IF Len(trail') = due /\ ~met' THEN landmark' = at' /\ due' = Later(due)
                                         ELSE UNCHANGED <<landmark, due>>
        /\ UNCHANGED <<terrain, way, dest>>
Done == dest # -1 /\ ~Walking
Stop == Done /\ UNCHANGED lmvars
Next == Start \/ Step \/ Stop
Spec == Init /\ [][Next]_lmvars

\* Where CameFrom's walker would end: on and on until it is there
RECURSIVE End(_, _)
End(p, t) == IF p = orig \/ Way(p) = -1 \/ Beside(p, Way(p)) = -1 \/ Len(t) >= Limit THEN <<p, t>>
             ELSE End(Beside(p, Way(p)), <<Opposite(Way(p))>> \o t)
Found == IF Way(dest) = -1 THEN <<"err", "DestinationUnreachable">>
         ELSE IF met THEN <<"err", "Loop">>
         ELSE IF Arrived THEN <<"ok", trail>> ELSE <<"err", "InvalidMovement">>
Expected == LET e == End(dest, <<>>)
            IN IF Way(dest) = -1 THEN <<"err", "DestinationUnreachable">>
               ELSE IF e[1] = orig THEN <<"ok", e[2]>>
               ELSE IF Way(e[1]) = -1 \/ Beside(e[1], Way(e[1])) = -1 THEN <<"err", "InvalidMovement">>
               ELSE <<"err", "Loop">>
Right == Done => Found = Expected
Soon == dest # -1 => Len(trail) <= 3 * Cardinality(been)
=============================================================================
