----------------------------- MODULE UniformCost -----------------------------
(***************************************************************************)
(* Uniform-cost iteration (properties C23, C27): each step settles and     *)
(* yields one of the cheapest cells that are not settled yet, with a way   *)
(* back to a settled cell.  `best` has the cheapest cost of the ways to    *)
(* each cell that go through settled cells only: <<>> or <<cost>>.         *)
(***************************************************************************)
EXTENDS Terrain
VARIABLES settled, best
ucvars == <<terrain, settled, best>>

Start == /\ settled = {}
         /\ best = [p \in Cells |-> IF p = orig THEN <<BigZero>> ELSE <<>>]
Fringe == { p \in Cells \ settled : best[p] # <<>> }
IsCheapest(p) == p \in Fringe /\ \A q \in Fringe : BigLe(best[p][1], best[q][1])
\* d leads from p back to a settled cell, the last one of a cheapest way to p
WayBack(p, d) ==
    /\ Opposite(d) \in usable
    /\ { q \in settled : /\ Dest(q, Opposite(d)) = p
                         /\ BigAdd(best[q][1], Cost(q, Opposite(d))) = best[p][1] } # {}

\* Cheapest way to q by one movement from p
Cheaper(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                 ELSE IF BigLe(a[1], b[1]) THEN a ELSE b
RECURSIVE Relax(_, _, _)
Relax(p, ds, b) ==
    IF ds = {} THEN b
    ELSE LET d == CHOOSE d \in ds : TRUE
             q == Dest(p, d)
         IN Relax(p, ds \ {d},
                  IF q = -1 \/ q \in settled THEN b
                  ELSE [b EXCEPT ![q] = Cheaper(@, <<BigAdd(best[p][1], Cost(p, d))>>)])

Settle(p) ==
    /\ IsCheapest(p)
    /\ settled' = settled \cup {p}
    /\ best' = Relax(p, usable, best)
    /\ UNCHANGED terrain
Step(p, d) ==
    /\ Settle(p)
    /\ (settled = {}) <=> (p = orig)
    /\ p # orig => WayBack(p, d)
End == Fringe = {} /\ UNCHANGED ucvars
=============================================================================
