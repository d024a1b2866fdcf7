------------------------------ MODULE MCBitmap ------------------------------
(* The words of bit grids refine the sets of BitStore, and are equal       *)
(* exactly when the sets are, whatever the history.                        *)
EXTENDS Bitmap
CONSTANTS W, H
Slots == {1, 2}
Init == Begin(W, H, Slots)
DoFill == \E s \in Slots, v \in BOOLEAN : Fill(s, v)
DoWrite == \E s \in Slots, p \in Cells, v \in BOOLEAN : Write(s, p, v)
DoBulk == \E s \in Slots, ps \in SUBSET Cells, v \in BOOLEAN : Bulk(s, ps, v)
DoCopy == \E s, t \in Slots : Put(t, bits[s])
DoFlip == \E s \in Slots, sym \in {"fliph", "flipv"} : Flip(s, sym)
Next == DoFill \/ DoWrite \/ DoBulk \/ DoCopy \/ DoFlip
Spec == Init /\ [][Next]_bmvars

BS == INSTANCE BitStore WITH slots <- [s \in Slots |-> SetOf(bits[s])]
Step ==
    \/ \E s \in Slots, v \in BOOLEAN : BS!Fill(s, v)
    \/ \E s \in Slots, p \in Cells, v \in BOOLEAN : BS!Write(s, p, v)
    \/ \E s \in Slots, ps \in SUBSET Cells, v \in BOOLEAN : BS!Put(s, IF v THEN SetOf(bits[s]) \cup ps ELSE SetOf(bits[s]) \ ps)
    \/ \E s, t \in Slots : BS!Copy(s, t)
    \/ \E s \in Slots, sym \in {"fliph", "flipv"} : BS!Transform(s, sym)
Refines == [][Step]_bmvars
\* The same step, not just any
Stepwise == [][ /\ \A s \in Slots, v \in BOOLEAN : Fill(s, v) => BS!Fill(s, v)
                /\ \A s \in Slots, p \in Cells, v \in BOOLEAN : Write(s, p, v) => BS!Write(s, p, v)
                /\ \A s \in Slots, sym \in {"fliph", "flipv"} : Flip(s, sym) => BS!Transform(s, sym) ]_bmvars
EqualWhenSame == \A s, t \in Slots : (bits[s] = bits[t]) = (SetOf(bits[s]) = SetOf(bits[t]))
=============================================================================
