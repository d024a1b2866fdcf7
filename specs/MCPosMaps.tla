----------------------------- MODULE MCPosMaps -----------------------------
(***************************************************************************)
(* The backends side by side: an array, an association list with an        *)
(* initial value, a set of bits and a set of cells.                        *)
(***************************************************************************)
EXTENDS PosMaps, FiniteSets
CONSTANTS N, Values
VARIABLES array, assoc, initial, bits
vars == <<pmvars, array, assoc, initial, bits>>
Init == /\ n = N /\ map = [p \in Cells |-> 0] /\ set = {}
        /\ array = map /\ assoc = {} /\ initial = 0 /\ bits = [p \in Cells |-> FALSE]
SameSets == UNCHANGED bits
SameMaps == UNCHANGED <<array, assoc, initial>>
DoNew == \E v \in Values : New(v) /\ array' = [p \in Cells |-> v] /\ assoc' = {} /\ initial' = v /\ SameSets
DoPut == \E p \in Cells, v \in Values :
           /\ Put(p, v) /\ array' = [array EXCEPT ![p] = v]
           /\ assoc' = { a \in assoc : a[1] # p } \cup { <<p, v>> }
           /\ UNCHANGED initial /\ SameSets
DoSetTo == \E p \in Cells, v \in BOOLEAN : SetTo(p, v) /\ bits' = [bits EXCEPT ![p] = v] /\ SameMaps
DoNewSet == NewSet /\ bits' = [p \in Cells |-> FALSE] /\ SameMaps
Next == DoNew \/ DoPut \/ DoSetTo \/ DoNewSet
Spec == Init /\ [][Next]_vars
Found(p) == LET as == { a \in assoc : a[1] = p } IN IF as = {} THEN initial ELSE (CHOOSE a \in as : TRUE)[2]
Inv == /\ \A p \in Cells : All(<<array[p], Found(p)>>, map[p]) /\ All(<<bits[p]>>, p \in set)
       /\ \A p \in Cells : Cardinality({ a \in assoc : a[1] = p }) <= 1
=============================================================================
