----------------------------- MODULE MCRingTurn -----------------------------
(* Whatever the order of the rings, all values arrive and none is lost. *)
EXTENDS RingTurn
CONSTANTS MaxW, MaxH
Init == \E n \in 1..MaxW, m \in 1..MaxH, s \in {"fliph", "flipv", "cw", "cc"} :
            (s \in {"cw", "cc"} => n = m) /\ Begin(n, m, s)
Next == todo # {} /\ \E p \in todo : (\A q \in todo : p <= q) /\ Step(p)
Spec == Init /\ [][Next]_vars
Kept == { at[i] : i \in DOMAIN at } = Cells
Disjoint == \A p, q \in todo : p # q => { Ring(p)[k] : k \in 1..4 } \cap { Ring(q)[k] : k \in 1..4 } = {}
Done == todo = {} => Turned
Inv == Kept /\ Disjoint /\ Done
=============================================================================
