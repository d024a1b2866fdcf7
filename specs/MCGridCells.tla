---------------------------- MODULE MCGridCells ----------------------------
(***************************************************************************)
(* Cells are independent: `last` remembers the value of each cell on its   *)
(* own, and where the values that move come from.                          *)
(***************************************************************************)
EXTENDS GridStore
CONSTANTS W, H, Values
VARIABLES last, lastSaved
vars == <<gsvars, last, lastSaved>>
Init == /\ w = W /\ h = H /\ cells = Filled(0) /\ saved = <<>>
        /\ last = [p \in Cells |-> 0] /\ lastSaved = <<>>
Calm == UNCHANGED lastSaved
DoWrite == \E p \in Cells, v \in Values : Write(p, v) /\ last' = [last EXCEPT ![p] = v] /\ Calm
DoRepeat == \E v \in Values : Repeat(v) /\ last' = [p \in Cells |-> v] /\ Calm
DoNegate == Negate /\ last' = [p \in Cells |-> -last[p]] /\ Calm
DoExtend == \E p, q \in Cells, u, v \in Values :
              /\ Extend(<< <<p, u>>, <<q, v>> >>)
              /\ last' = [[last EXCEPT ![p] = u] EXCEPT ![q] = v] /\ Calm
DoCollect == \E f \in [1..(W * H) -> Values] :
              Collect(f, <<"ok">>) /\ last' = [p \in Cells |-> f[p + 1]] /\ Calm
DoTransform == \E sym \in Symmetries :
              /\ Transform(sym)
              /\ last' = [p \in Cells |-> last[CHOOSE q \in Cells : Image(sym, q) = p]] /\ Calm
DoSave == Save /\ lastSaved' = last /\ UNCHANGED last
DoSwap == Swap /\ lastSaved' = last /\ last' = lastSaved
Next == DoWrite \/ DoRepeat \/ DoNegate \/ DoExtend \/ DoCollect \/ DoTransform \/ DoSave \/ DoSwap
Spec == Init /\ [][Next]_vars
Inv == /\ \A p \in Cells : cells[p + 1] = last[p]
       /\ \A p \in Cells : Line(Row(p))[Col(p) + 1] = last[p]
       /\ saved # <<>> => \A p \in Cells : saved[p + 1] = lastSaved[p]
=============================================================================
