------------------------------ MODULE BitStore ------------------------------
(***************************************************************************)
(* Bit grids (properties C16, C17, C18): each slot holds the set of cells  *)
(* that are true in one of them.                                           *)
(***************************************************************************)
EXTENDS Symmetry, FiniteSets
VARIABLE slots
bsvars == <<w, h, slots>>

Same == UNCHANGED bsvars
Put(s, set) == s \in DOMAIN slots /\ slots' = [slots EXCEPT ![s] = set] /\ UNCHANGED <<w, h>>
Range(seq) == { seq[i] : i \in DOMAIN seq }

Fill(s, v) == Put(s, IF v THEN Cells ELSE {})
Write(s, p, v) == p \in Cells /\ Put(s, IF v THEN slots[s] \cup {p} ELSE slots[s] \ {p})
Bulk(s, ps, v) == Put(s, IF v THEN slots[s] \cup Range(ps) ELSE slots[s] \ Range(ps))
FromCells(s, ps) == Put(s, Range(ps))
FromBools(s, values, r) ==
    IF Len(values) = w * h
    THEN r = <<"ok">> /\ Put(s, { p \in Cells : values[p + 1] })
    ELSE r = <<"panic">> /\ Same
Copy(s, t) == Put(t, slots[s])
Transform(s, sym) == sym \in Symmetries /\ Put(s, { Image(sym, p) : p \in slots[s] })

Read(s, p, r) == p \in Cells /\ r = (p \in slots[s]) /\ Same
Dump(s, r) == r = [i \in 1..(w * h) |-> (i - 1) \in slots[s]] /\ Same
DumpPos(s, r) == r = [i \in 1..(w * h) |-> <<i - 1, (i - 1) \in slots[s]>>] /\ Same
\* The n cells for which In holds, in order
IsListOf(r, n, In(_)) ==
    /\ Len(r) = n
    /\ \A i \in 1..n : r[i] \in Cells /\ In(r[i])
    /\ \A i \in 1..(n - 1) : r[i] < r[i + 1]
DumpTrue(s, r) ==
    LET In(p) == p \in slots[s] IN IsListOf(r, Cardinality(slots[s]), In) = TRUE /\ Same
DumpFalse(s, r) ==
    LET In(p) == p \notin slots[s] IN IsListOf(r, w * h - Cardinality(slots[s]), In) = TRUE /\ Same

(* Comparisons between all slots: eq[i][j]; order[i][j] is -1, 0 or 1;     *)
(* hash[i] numbers the different hashes.                                   *)
Compare(eq, order, hash) ==
    LET S == DOMAIN slots
    IN /\ DOMAIN eq = S /\ DOMAIN order = S /\ DOMAIN hash = S
       /\ \A i, j \in S :
            /\ eq[i][j] = (slots[i] = slots[j])
            /\ slots[i] = slots[j] => hash[i] = hash[j]
            /\ order[i][j] \in {-1, 0, 1}
            /\ (order[i][j] = 0) = (slots[i] = slots[j])
            /\ order[i][j] = -order[j][i]
            /\ \A k \in S : (order[i][j] <= 0 /\ order[j][k] <= 0) => order[i][k] <= 0
       /\ Same
=============================================================================
