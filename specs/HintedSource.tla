---------------------------- MODULE HintedSource ----------------------------
(***************************************************************************)
(* A source of items that says how many it has (property C27).  `left` is  *)
(* the number of items that it has still to give.  What it says is a lower *)
(* and possibly an upper bound of it.                                      *)
(***************************************************************************)
EXTENDS BigInt
VARIABLE left
AtMost(lo, n) == BigLe(lo, BigOf(n))
AtLeast(hi, n) == IF hi = <<>> THEN TRUE ELSE BigLe(BigOf(n), hi[1])
Brackets(lo, hi, n) == AtMost(lo, n) /\ AtLeast(hi, n)

Give(k) == left >= k /\ left' = left - k
Hint(lo, hi) == Brackets(lo, hi, left) /\ UNCHANGED left
\* About what is left when k more items were dropped
HintPart(k, lo, hi) == Brackets(lo, hi, IF k > left THEN 0 ELSE left - k) /\ UNCHANGED left
\* There are no more items
End == left = 0 /\ UNCHANGED left
\* All the others are dropped
Rest == left' = 0
=============================================================================
