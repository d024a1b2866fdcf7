------------------------------ MODULE AstarHeap ------------------------------
(***************************************************************************)
(* How the library searches with A*: a heap of <<estimate, cell, way       *)
(* back>>, the fewest steps known, and the way back that was recorded last *)
(* for each cell that came up.  Stale entries are skipped.                 *)
(***************************************************************************)
EXTENDS Terrain
CONSTANTS SkipStale,
          GoOn,        \* after the target has come up, as the iterator does
          Halve        \* with diagonals, the estimate is half of the distance
VARIABLES known, heap, from, target, done
avars == <<terrain, known, heap, from, target, done>>

Abs(n) == IF n < 0 THEN -n ELSE n
Manhattan(p) == Abs(Col(p) - Col(target)) + Abs(Row(p) - Row(target))
Estimate(p) == IF usable = Dirs /\ Halve THEN (Manhattan(p) + 1) \div 2 ELSE Manhattan(p)

Start == /\ known = [p \in Cells |-> IF p = orig THEN 0 ELSE -1]
         /\ heap = { <<0, orig, 0>> }
         /\ from = [p \in Cells |-> -1]
         /\ done = ""
RECURSIVE Around(_, _, _)
Around(p, ds, s) ==
    IF ds = {} THEN s
    ELSE LET d == CHOOSE d \in ds : TRUE
             q == Dest(p, d)
             c == s[1][p] + 1
         IN Around(p, ds \ {d},
                   IF q = -1 THEN s
                   ELSE IF s[1][q] # -1 /\ c >= s[1][q] THEN s
                   ELSE << [s[1] EXCEPT ![q] = c], s[2] \cup {<<c + Estimate(q), q, Opposite(d)>>} >>)
Top == { e \in heap : \A f \in heap : e[1] <= f[1] }
Stale(e) == SkipStale /\ e[1] > known[e[2]] + Estimate(e[2])
Skip == /\ done = ""
        /\ \E e \in Top : /\ Stale(e)
                          /\ heap' = heap \ {e}
        /\ UNCHANGED <<terrain, known, from, target, done>>
Visit == /\ done = ""
         /\ \E e \in Top :
              /\ ~Stale(e)
              /\ LET s == Around(e[2], usable, <<known, heap \ {e}>>)
                 IN known' = s[1] /\ heap' = s[2]
              /\ from' = [from EXCEPT ![e[2]] = e[3]]
              /\ done' = IF e[2] = target /\ ~GoOn THEN "found" ELSE ""
         /\ UNCHANGED <<terrain, target>>
GiveUp == done = "" /\ heap = {} /\ done' = "none" /\ UNCHANGED <<terrain, known, heap, from, target>>
=============================================================================
