----------------------------- MODULE PathSearch -----------------------------
(***************************************************************************)
(* Searches for paths (properties C21, C22, C24): which outcomes they may  *)
(* have on a terrain.  `dist` is the smallest number of steps from the     *)
(* origin to each cell, -1 if there is no way; `cheap` is the smallest     *)
(* cost: <<>> or <<cost>>, when movements have costs.  Which one of        *)
(* several best paths is found is left open.                               *)
(***************************************************************************)
EXTENDS Terrain, TLC
VARIABLES dist, cheap
psvars == <<terrain, dist, cheap>>

RECURSIVE DistFrom(_, _, _)
DistFrom(front, k, known) ==
    IF front = {} THEN known
    ELSE LET now == TLCEval([p \in Cells |-> IF p \in front THEN k ELSE known[p]])
         IN DistFrom({ p \in After(front) : now[p] = -1 }, k + 1, now)
Distances == DistFrom({orig}, 0, [p \in Cells |-> -1])

\* Cheapest costs, by improving them until nothing changes
Cheaper(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                 ELSE IF BigLe(a[1], b[1]) THEN a ELSE b
Through(p, d, known) ==
    IF Dest(p, d) = -1 \/ known[p] = <<>> THEN <<>>
    ELSE <<BigAdd(known[p][1], Cost(p, d))>>
RECURSIVE Least(_, _, _, _)
\* the best of what is known of q and of the ways through its neighbours
Least(q, ds, known, acc) ==
    IF ds = {} THEN acc
    ELSE LET d == CHOOSE d \in ds : TRUE
             p == Beside(q, d)
         IN Least(q, ds \ {d}, known,
                  IF p = -1 \/ Dest(p, Opposite(d)) # q THEN acc
                  ELSE Cheaper(acc, Through(p, Opposite(d), known)))
RECURSIVE Improve(_, _)
\* `changed` are the cells that were improved last
Improve(known, changed) ==
    IF changed = {} THEN known
    ELSE LET near == After(changed)
             back == { Opposite(d) : d \in usable }
             new == TLCEval([q \in Cells |-> IF q \in near THEN Least(q, back, known, known[q]) ELSE known[q]])
         IN Improve(new, { q \in near : new[q] # known[q] })
Cheapest == Improve([p \in Cells |-> IF p = orig THEN <<BigZero>> ELSE <<>>], {orig})

Start == dist = <<>> /\ cheap = <<>>
Survey == /\ dist = <<>>
          /\ Assert(Local, "paths are only defined by directions on local terrains")
          /\ dist' = Distances
          /\ cheap' = IF cost = <<>> THEN <<>> ELSE Cheapest
          /\ UNCHANGED terrain

Unreachable == <<"err", "DestinationUnreachable">>
IsPath(path, dest) == Walk(path) = dest

Bfs(goals, r) ==
    LET near == { g \in goals : g # orig /\ dist[g] # -1 }
    IN IF near = {} THEN r = Unreachable
       ELSE /\ r[1] = "ok"
            /\ r[2] \in near /\ \A g \in near : dist[r[2]] <= dist[g]
            /\ IsPath(r[3], r[2]) /\ Len(r[3]) = dist[r[2]]
\* Destinations may also be elsewhere, in a grid that these cells are a part of
Astar(dest, r) ==
    IF dest \notin Cells \/ dist[dest] = -1 THEN r = Unreachable
    ELSE /\ r[1] = "ok"
         /\ IsPath(r[2], dest) /\ Len(r[2]) = dist[dest]
\* The costs that a program can count end before `usize::MAX`, which stands for
\* unknown; what is more expensive than that may be out of reach.
Ucs(dest, r) ==
    \/ dest \notin Cells /\ r = Unreachable
    \/ /\ dest \in Cells
       /\ cheap[dest] = <<>> => r = Unreachable
       /\ cheap[dest] # <<>> => /\ r[1] = "ok"
                                /\ IsPath(r[2], dest) /\ PathCost(r[2]) = cheap[dest][1]
                                \* (with costs of 0, there may be detours for free)
                                /\ dest = orig => r[2] = <<>>
    \/ dest \in Cells /\ cheap[dest] # <<>> /\ BigLe(U64Max, cheap[dest][1]) /\ r = Unreachable
\* The searches leave the terrain as it is
Answer(ok) == dist # <<>> /\ ok /\ UNCHANGED psvars
=============================================================================
