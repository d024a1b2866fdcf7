------------------------------- MODULE Terrain -------------------------------
(***************************************************************************)
(* What the searches work on: the cells of a w x h grid, numbered in       *)
(* reading order from 0, and a movement function.  `go[p + 1][d + 1]` is   *)
(* the cell that is reached from cell p towards direction d, or -1;        *)
(* `cost[p + 1][d + 1]` is the cost of that movement.  A terrain is local  *)
(* if all its movements lead to the neighbour in their direction.          *)
(***************************************************************************)
EXTENDS Directions, FiniteSets

VARIABLES w, h,
          usable,   \* the directions that are considered
          go, cost,
          orig      \* where all searches start
terrain == <<w, h, usable, go, cost, orig>>

Cells == 0..(w * h - 1)
Dest(p, d) == go[p + 1][d + 1]
Cost(p, d) == cost[p + 1][d + 1]
Col(p) == p % w
Row(p) == p \div w
\* Cell next to p, or -1
Beside(p, d) ==
    LET x == Col(p) + DX(d)
        y == Row(p) + DY(d)
    IN IF x < 0 \/ x >= w \/ y < 0 \/ y >= h THEN -1 ELSE y * w + x
Local == \A p \in Cells, d \in usable : Dest(p, d) \in {-1, Beside(p, d)}

Succ(p) == { Dest(p, d) : d \in usable } \ {-1}
After(set) == UNION { Succ(p) : p \in set }

\* Cell at the end of a path, -1 if the path is not one
RECURSIVE WalkFrom(_, _, _)
WalkFrom(p, path, i) ==
    IF p = -1 \/ i > Len(path) THEN p
    ELSE IF path[i] \notin usable THEN -1
    ELSE WalkFrom(Dest(p, path[i]), path, i + 1)
Walk(path) == WalkFrom(orig, path, 1)

RECURSIVE CostFrom(_, _, _, _)
CostFrom(p, path, i, acc) ==
    IF i > Len(path) THEN acc
    ELSE CostFrom(Dest(p, path[i]), path, i + 1, BigAdd(acc, Cost(p, path[i])))
PathCost(path) == CostFrom(orig, path, 1, BigZero)
=============================================================================
