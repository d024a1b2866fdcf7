------------------------------- MODULE MCPlain -------------------------------
(* Small grids without obstacles: distances, layers and numbers are those    *)
(* of BreadthFirst on the terrain where all movements are possible.          *)
EXTENDS Plain
CONSTANTS WS, HS
VARIABLES go, cost, orig, front, seen
BF == INSTANCE BreadthFirst
vars == <<plvars, go, cost, orig, front, seen>>
ColOf(p) == p % w
RowOf(p) == p \div w
Open == [i \in 1..(w * h) |-> [d \in 1..8 |->
    LET x == ColOf(i - 1) + DX(d - 1)
        y == RowOf(i - 1) + DY(d - 1)
    IN IF Inside(x, y) THEN y * w + x ELSE -1]]
Init ==
    /\ w \in WS /\ h \in HS /\ ox \in 0..(w - 1) /\ oy \in 0..(h - 1) /\ step = 0
    /\ \E diag \in BOOLEAN : usable = Considered(diag)
    /\ go = Open /\ cost = <<>> /\ orig = oy * w + ox
    /\ BF!Start
\* Some sequence of the layer, with the first way back
RECURSIVE AsItems(_)
AsItems(s) == IF s = {} THEN <<>>
              ELSE LET p == CHOOSE p \in s : TRUE
                   IN <<<<ColOf(p), RowOf(p), CHOOSE d \in usable : BF!WayBack(p, d)>>>> \o AsItems(s \ {p})
InCells(items) == [i \in DOMAIN items |-> <<items[i][2] * w + items[i][1], items[i][3]>>]
Advance == \E items \in {AsItems(BF!Layer)} : Layer(items) /\ BF!Step(InCells(items))
Stop == End /\ BF!End
Next == Advance \/ Stop
Spec == Init /\ [][Next]_vars
SameBacks == \A p \in BF!Layer, d \in Dirs : BF!WayBack(p, d) = Back(ColOf(p), RowOf(p), d)
SameEnd == (Around(step + 1) = 0) = (BF!Layer = {})
SameLayer == BF!Layer = { p \in BF!Cells : Dist(ColOf(p), RowOf(p)) = step + 1 }
Counted == Cardinality(seen) = Within(step)
=============================================================================
