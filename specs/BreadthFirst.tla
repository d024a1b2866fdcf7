---------------------------- MODULE BreadthFirst ----------------------------
(***************************************************************************)
(* Breadth-first iteration (properties C20, C27): each step yields the     *)
(* next layer of cells around the origin, with a way back for each.        *)
(***************************************************************************)
EXTENDS Terrain
VARIABLES front,   \* the layer that was yielded last
          seen     \* all layers until now, and the origin
bfvars == <<terrain, front, seen>>

Start == front = {orig} /\ seen = {orig}
Layer == After(front) \ seen
\* d leads from p back to a cell of the last layer that leads to p
WayBack(p, d) == Opposite(d) \in usable /\ { q \in front : Dest(q, Opposite(d)) = p } # {}

Advance == front' = Layer /\ seen' = seen \cup Layer /\ UNCHANGED terrain
Step(items) ==
    /\ Layer # {}
    /\ { items[i][1] : i \in DOMAIN items } = Layer
    /\ Len(items) = Cardinality(Layer)
    /\ \A i \in DOMAIN items : WayBack(items[i][1], items[i][2])
    /\ Advance
End == Layer = {} /\ UNCHANGED bfvars
=============================================================================
