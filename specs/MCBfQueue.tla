----------------------------- MODULE MCBfQueue -----------------------------
(* The queue of the library yields what BreadthFirst allows. *)
EXTENDS SmallTerrains, BfQueue
CONSTANT Diag
VARIABLES front, seen
mcvars == <<qvars, front, seen>>
BF == INSTANCE BreadthFirst
Init == /\ Dims(WS, HS) /\ usable = Considered(Diag) /\ PickGo /\ cost = <<>> /\ orig \in Cells
        /\ Start /\ BF!Start
\* BreadthFirst follows what is yielded
Follow == front' = { yielded'[i][1] : i \in DOMAIN yielded' } /\ seen' = seen \cup front'
Next == Yield /\ Follow
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)
Refines == [][BF!Step(yielded')]_mcvars
EndsWithIt == queue = <<>> => BF!Layer = {}
Ends == <>(queue = <<>>)
=============================================================================
