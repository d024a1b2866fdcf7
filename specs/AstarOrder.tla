----------------------------- MODULE AstarOrder -----------------------------
(***************************************************************************)
(* A* iteration (property C30): each step settles and yields a reachable   *)
(* cell, after one that precedes it on a shortest path.  Which one comes   *)
(* next depends on the estimates, and is left open.  `dist` is the         *)
(* smallest number of steps from the origin to each cell, -1 if there is   *)
(* no way.                                                                 *)
(***************************************************************************)
EXTENDS Terrain
VARIABLES settled, dist
aovars == <<terrain, settled, dist>>

\* d leads from p back to a settled cell, the last one of a shortest path to p
WayBack(p, d) ==
    /\ Opposite(d) \in usable
    /\ { q \in settled : Dest(q, Opposite(d)) = p /\ dist[q] + 1 = dist[p] } # {}
First(p) == settled = {} /\ p = orig
Following(p, d) == settled # {} /\ p \notin settled /\ dist[p] > 0 /\ WayBack(p, d)
AllSettled == settled = { p \in Cells : dist[p] # -1 }
End == AllSettled /\ UNCHANGED aovars
=============================================================================
