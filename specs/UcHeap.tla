------------------------------- MODULE UcHeap -------------------------------
(***************************************************************************)
(* How the library iterates by uniform cost: a heap of <<cost, cell, way   *)
(* back>> and the best costs known.  Entries are not removed from the heap *)
(* when something better is found; they are skipped when they come up.     *)
(***************************************************************************)
EXTENDS Terrain
CONSTANT SkipStale
VARIABLES known, heap, yielded
hvars == <<terrain, known, heap, yielded>>

Start == /\ known = [p \in Cells |-> IF p = orig THEN <<BigZero>> ELSE <<>>]
         /\ heap = { <<BigZero, orig, 0>> }
         /\ yielded = <<>>
Top == { e \in heap : \A f \in heap : BigLe(e[1], f[1]) }
Better(c, k) == k = <<>> \/ BigLt(c, k[1])
RECURSIVE Around(_, _, _)
Around(p, ds, s) ==
    IF ds = {} THEN s
    ELSE LET d == CHOOSE d \in ds : TRUE
             q == Dest(p, d)
             c == BigAdd(s[1][p][1], Cost(p, d))
         IN Around(p, ds \ {d},
                   IF q = -1 THEN s
                   ELSE IF ~Better(c, s[1][q]) THEN s
                   ELSE << [s[1] EXCEPT ![q] = <<c>>], s[2] \cup {<<c, q, Opposite(d)>>} >>)
Stale(e) == SkipStale /\ known[e[2]][1] # e[1]
Skip == \E e \in Top : /\ Stale(e)
                       /\ heap' = heap \ {e}
                       /\ UNCHANGED <<terrain, known, yielded>>
\* The order of entries of the same cost is not important
Yield == \E e \in Top : /\ ~Stale(e)
                        /\ LET s == Around(e[2], usable, <<known, heap \ {e}>>)
                           IN known' = s[1] /\ heap' = s[2]
                        /\ yielded' = <<e[2], e[3]>>
                        /\ UNCHANGED terrain
=============================================================================
