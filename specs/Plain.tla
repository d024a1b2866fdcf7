-------------------------------- MODULE Plain --------------------------------
(***************************************************************************)
(* Searches on large grids without obstacles (properties C20 to C24 and    *)
(* C30, where fronts are long and many ways are equally short).  Distances *)
(* are known without exploring: max(|dx|, |dy|) with diagonals, |dx| +     *)
(* |dy| without.  Positions are <<x, y>>; all movements cost the same.     *)
(***************************************************************************)
EXTENDS Directions, FiniteSets

VARIABLES w, h, usable, ox, oy,
          step      \* layers that were yielded
plain == <<w, h, usable, ox, oy>>
plvars == <<plain, step>>

Abs(n) == IF n < 0 THEN -n ELSE n
Diag == usable = Dirs
Inside(x, y) == x >= 0 /\ x < w /\ y >= 0 /\ y < h
Far(dx, dy) == IF Diag THEN IF dx > dy THEN dx ELSE dy ELSE dx + dy
Dist(x, y) == Far(Abs(x - ox), Abs(y - oy))

\* Numbers between lo and hi that are in 0..(n - 1)
Clip(lo, hi, n) == LET l == IF lo < 0 THEN 0 ELSE lo
                       u == IF hi >= n THEN n - 1 ELSE hi
                   IN IF u < l THEN 0 ELSE u - l + 1
\* Line by line, across the shorter side
RECURSIVE Sum(_, _, _, _, _, _)
Sum(v, last, k, m, n, o) ==
    IF v > last THEN 0
    ELSE Clip(m - (k - Abs(v - o)), m + (k - Abs(v - o)), n) + Sum(v + 1, last, k, m, n, o)
SumLines(k, m, n, o, lines) ==
    Sum(IF o - k < 0 THEN 0 ELSE o - k, IF o + k >= lines THEN lines - 1 ELSE o + k, k, m, n, o)
\* How many positions are at most k steps away
Within(k) ==
    IF Diag THEN Clip(ox - k, ox + k, w) * Clip(oy - k, oy + k, h)
    ELSE IF w < h THEN SumLines(k, oy, h, ox, w)
    ELSE SumLines(k, ox, w, oy, h)
Around(k) == Within(k) - Within(k - 1)

\* d leads from (x, y) back along a shortest way
Back(x, y, d) ==
    /\ d \in usable
    /\ Inside(x + DX(d), y + DY(d))
    /\ Dist(x + DX(d), y + DY(d)) + 1 = Dist(x, y)

Layer(items) ==
    /\ Len(items) > 0
    /\ Len(items) = Around(step + 1)
    /\ Cardinality({ <<items[i][1], items[i][2]>> : i \in DOMAIN items }) = Len(items)
    /\ (\A i \in DOMAIN items :
          /\ Inside(items[i][1], items[i][2])
          /\ Dist(items[i][1], items[i][2]) = step + 1
          /\ Back(items[i][1], items[i][2], items[i][3])) = TRUE
    /\ step' = step + 1
    /\ UNCHANGED plain
End == Around(step + 1) = 0 /\ UNCHANGED plvars

DistOf(c) == LET x == c % w
                 y == c \div w
             IN Dist(x, y)
\* An iteration one by one: cells in order, the way back of each, and the
\* rank of each cell in that order, which shows that none is missing
Order(cells, backs, ranks, bydist) ==
    /\ Len(cells) = w * h /\ Len(ranks) = w * h /\ Len(backs) = w * h
    /\ cells[1] = oy * w + ox
    /\ \A i \in 1..(w * h) : cells[i] \in 0..(w * h - 1) /\ ranks[cells[i] + 1] = i
    /\ \A i \in 2..(w * h) :
          LET x == cells[i] % w
              y == cells[i] \div w
              d == backs[i]
          IN /\ Back(x, y, d)
             /\ ranks[(y + DY(d)) * w + x + DX(d) + 1] < i
             /\ bydist => DistOf(cells[i - 1]) <= Dist(x, y)

\* Paths, as runs <<n, d>>: they stay inside, get there, and are as short as can be
RECURSIVE Walk(_, _, _, _, _)
Walk(x, y, runs, i, n) ==
    IF i > Len(runs) THEN <<x, y, n>>
    ELSE LET u == x + runs[i][1] * DX(runs[i][2])
             v == y + runs[i][1] * DY(runs[i][2])
         IN IF runs[i][1] < 1 \/ runs[i][2] \notin usable \/ ~Inside(u, v) THEN <<>>
            ELSE Walk(u, v, runs, i + 1, n + runs[i][1])
Path(x, y, r) == r[1] = "ok" /\ Walk(ox, oy, r[2], 1, 0) = <<x, y, Dist(x, y)>>
\* A breadth-first search stops at some nearest goal, which is not the origin
Nearest(goals, r) ==
    LET far == { g \in goals : g # <<ox, oy>> }
    IN IF far = {} THEN r = <<"err", "DestinationUnreachable">>
       ELSE /\ r[1] = "ok"
            /\ r[3] \in far
            /\ \A g \in far : Dist(r[3][1], r[3][2]) <= Dist(g[1], g[2])
            /\ Walk(ox, oy, r[2], 1, 0) = <<r[3][1], r[3][2], Dist(r[3][1], r[3][2])>>
Ask == UNCHANGED plvars
=============================================================================
