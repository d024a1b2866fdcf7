---------------------------- MODULE SmallTerrains ----------------------------
(* Sets of small terrains, for model checking. *)
EXTENDS Terrain

CONSTANTS WS, HS,      \* widths and heights
          Kind         \* which movements may lack: "edges", "cells" or "any"

Dims(ws, hs) == w \in ws /\ h \in hs
AllEdges == { <<p, d>> \in Cells \X usable : Beside(p, d) # -1 }
GoWithout(off) == [i \in 1..(w * h) |-> [k \in 1..8 |->
    IF (k - 1) \in usable /\ <<i - 1, k - 1>> \notin off THEN Beside(i - 1, k - 1) ELSE -1]]
AroundCells(blocked) == { e \in AllEdges : e[1] \in blocked \/ Beside(e[1], e[2]) \in blocked }
\* Movements to anywhere, with two directions
GoAnywhere(f) == [i \in 1..(w * h) |-> [k \in 1..8 |-> IF k \in {1, 3} THEN f[i][k] ELSE -1]]

PickGo == CASE Kind = "edges" -> \E off \in SUBSET AllEdges : go = GoWithout(off)
            [] Kind = "cells" -> \E b \in SUBSET Cells : go = GoWithout(AroundCells(b))
            [] Kind = "any" -> \E f \in [1..(w * h) -> [{1, 3} -> {-1} \cup Cells]] : go = GoAnywhere(f)

\* What is reached by some walk of exactly / at least k steps
RECURSIVE Exactly(_)
Exactly(k) == IF k = 0 THEN {orig} ELSE After(Exactly(k - 1))
\* The definition of the distance: the length of a shortest walk
Walkable(p) == \E k \in 0..(w * h) : p \in Exactly(k)
TrueDist(p) == IF Walkable(p) THEN CHOOSE k \in 0..(w * h) : p \in Exactly(k) /\ \A j \in 0..(k - 1) : p \notin Exactly(j)
               ELSE -1
=============================================================================
