---------------------------- MODULE TraceBitStore ----------------------------
(* Recorded uses of bit grids against BitStore, iterators against Scan. *)
EXTENDS BitStore, Scan, TLC, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h
    /\ slots = [s \in 1..Params.slots |-> {}]
    /\ ScanInit
Use ==
    \/ On("fill") /\ Fill(E.s, E.v)
    \/ On("write") /\ Write(E.s, E.p, E.v)
    \/ On("bulk") /\ Bulk(E.s, E.ps, E.v)
    \/ On("fromcells") /\ FromCells(E.s, E.ps)
    \/ On("frombools") /\ FromBools(E.s, E.values, E.r)
    \/ On("copy") /\ Copy(E.s, E.t)
    \/ On("transform") /\ Transform(E.s, E.sym)
    \/ On("read") /\ Read(E.s, E.p, E.r)
    \/ On("dump") /\ Dump(E.s, E.r)
    \/ On("dumppos") /\ DumpPos(E.s, E.r)
    \/ On("dumptrue") /\ DumpTrue(E.s, E.r)
    \/ On("dumpfalse") /\ DumpFalse(E.s, E.r)
    \/ On("compare") /\ Compare(E.eq, E.order, E.hash)
\* Cells in order
RECURSIVE Ordered(_, _, _)
Ordered(p, set, acc) ==
    IF p = w * h THEN acc ELSE Ordered(p + 1, set, IF p \in set THEN Append(acc, p) ELSE acc)
Items(s, what) ==
    CASE what = "values" -> [i \in 1..(w * h) |-> (i - 1) \in slots[s]]
      [] what = "pos" -> [i \in 1..(w * h) |-> <<i - 1, (i - 1) \in slots[s]>>]
      [] what = "true" -> Ordered(0, slots[s], <<>>)
      [] what = "false" -> Ordered(0, Cells \ slots[s], <<>>)
Iterate ==
    \/ On("scan") /\ ScanOver(Items(E.s, E.what)) /\ Same
    \/ On("scannth") /\ ScanNth(E.n, E.r) /\ Same
    \/ On("scannthback") /\ ScanNthBack(E.n, E.r) /\ Same
    \/ On("scanall") /\ ScanAll(E.r) /\ Same
    \/ On("scanallback") /\ ScanAllBack(E.r) /\ Same
    \/ On("scancount") /\ ScanCount(E.r) /\ Same
    \/ On("scanlast") /\ ScanLast(E.r) /\ Same
Step == (Use /\ UNCHANGED scanvars) \/ Iterate
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED <<bsvars, scanvars>>
Spec == Init /\ [][Next]_<<bsvars, scanvars, sid, idx>>
=============================================================================
