--------------------------- MODULE MCBreadthFirst ---------------------------
(* Layers are the distances, on all small terrains. *)
EXTENDS SmallTerrains, BreadthFirst
CONSTANT Diag
VARIABLE level
mcvars == <<bfvars, level>>
Init == /\ Dims(WS, HS) /\ usable = Considered(Diag) /\ PickGo /\ cost = <<>> /\ orig \in Cells
        /\ Start /\ level = 0
\* Any choice of ways back
Next == /\ Layer # {} /\ Advance /\ level' = level + 1
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

LayersAreDistances == front = { p \in Cells : TrueDist(p) = level }
SeenAreNearer == seen = { p \in Cells : TrueDist(p) \in 0..level }
NeverTheOrigin == level > 0 => orig \notin front
WaysBackExist == \A p \in Layer : \E d \in Dirs : WayBack(p, d)
EndMeansAll == Layer = {} => seen = { p \in Cells : Walkable(p) }
Ends == <>(Layer = {})
=============================================================================
