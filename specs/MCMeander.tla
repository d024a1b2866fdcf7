------------------------------ MODULE MCMeander ------------------------------
(* Small corridors: what is claimed about them is what the specification of  *)
(* the searches says about the terrain with that movement function, and a    *)
(* breadth-first iteration of it is one of the corridor.                     *)
EXTENDS Meander, FiniteSets
CONSTANTS Lens, Counts
VARIABLES w, h, usable, go, cost, orig, front, seen
BF == INSTANCE BreadthFirst
terrain == <<w, h, usable, go, cost, orig>>
vars == <<mevars, terrain, front, seen>>

Cell(k) == YOf(k) * w + XOf(k)
\* Cells that are consecutive in the corridor are connected, no others
GoTable == [i \in 1..Size |-> [d \in 1..8 |->
    IF \E k \in 0..reach : Cell(k) = i - 1 /\ k < reach /\ Towards(k) = d - 1
    THEN Cell((CHOOSE k \in 0..reach : Cell(k) = i - 1) + 1)
    ELSE IF \E k \in 1..reach : Cell(k) = i - 1 /\ Opposite(Towards(k - 1)) = d - 1
    THEN Cell((CHOOSE k \in 0..reach : Cell(k) = i - 1) - 1)
    ELSE -1]]
Init ==
    /\ len \in Lens /\ count \in Counts /\ down \in BOOLEAN /\ reach \in 0..(Size - 1)
    /\ at = 0
    /\ w = (IF down THEN count ELSE len) /\ h = (IF down THEN len ELSE count)
    /\ \E diag \in BOOLEAN : usable = Considered(diag)
    /\ go = GoTable /\ cost = <<>> /\ orig = 0
    /\ BF!Start
\* Both iterations, one layer at a time
Advance == \E d \in Dirs : Run(1, d, Opposite(d)) /\ BF!Step(<<<<Cell(at'), Opposite(d)>>>>)
\* Several steps at once
Jump == \E n \in 2..Size, d \in Dirs :
    /\ Run(n, d, Opposite(d))
    /\ front' = {Cell(at')}
    /\ seen' = { Cell(k) : k \in 0..at' }
    /\ UNCHANGED terrain
Stop == End /\ BF!End
Next == Advance \/ Jump \/ Stop
Spec == Init /\ [][Next]_vars

Together == front = {Cell(at)} /\ seen = { Cell(k) : k \in 0..at }
\* Neither can do what the other can't
SameEnd == (at = reach) = (BF!Layer = {})
Single == BF!Layer # {} => BF!Layer = {Cell(at + 1)}
Inside == { Cell(k) : k \in 0..(Size - 1) } = BF!Cells
LocalMoves == BF!Local
\* Runs are a path to that position, which no other direction continues
Expand(runs) == LET RECURSIVE X(_)
                    X(i) == IF i > Len(runs) THEN <<>> ELSE [j \in 1..runs[i][1] |-> runs[i][2]] \o X(i + 1)
                IN X(1)
Leads == /\ Len(Expand(Way(at)[2])) = at
         /\ BF!Walk(Expand(Way(at)[2])) = Cell(at)
Maximal == \A i \in 1..(Len(Way(at)[2]) - 1) : Way(at)[2][i][2] # Way(at)[2][i + 1][2]
=============================================================================
