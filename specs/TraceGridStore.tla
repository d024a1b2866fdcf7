--------------------------- MODULE TraceGridStore ---------------------------
(* Recorded uses of grids against GridStore, iterators against Scan. *)
EXTENDS GridStore, Scan, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h
    /\ cells = Filled(0)
    /\ saved = <<>>
    /\ ScanInit
Use ==
    \/ On("repeat") /\ Repeat(E.v)
    \/ On("write") /\ Write(E.p, E.v)
    \/ On("read") /\ Read(E.p, E.r)
    \/ On("line") /\ ReadLine(E.y, E.r)
    \/ On("dump") /\ Dump(E.r)
    \/ On("dumppos") /\ DumpPos(E.r)
    \/ On("neg") /\ Negate
    \/ On("extend") /\ Extend(E.pairs)
    \/ On("collect") /\ Collect(E.values, E.r)
    \/ On("fromlists") /\ FromLists(E.n, E.lists, E.r)
    \/ On("extendlists") /\ ExtendLists(E.lists, E.r)
    \/ On("transform") /\ Transform(E.sym)
    \/ On("save") /\ Save
    \/ On("swap") /\ Swap
    \/ On("compare") /\ Compare(E.r)
Iterate ==
    \/ On("scan") /\ ScanOver(CASE E.what = "values" -> cells
                               [] E.what = "pos" -> [i \in 1..(w * h) |-> <<i - 1, cells[i]>>]) /\ Same
    \/ On("scannth") /\ ScanNth(E.n, E.r) /\ Same
    \/ On("scannthback") /\ ScanNthBack(E.n, E.r) /\ Same
    \/ On("scanall") /\ ScanAll(E.r) /\ Same
    \/ On("scanallback") /\ ScanAllBack(E.r) /\ Same
    \/ On("scancount") /\ ScanCount(E.r) /\ Same
    \/ On("scanlast") /\ ScanLast(E.r) /\ Same
Step == (Use /\ UNCHANGED scanvars) \/ Iterate
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED <<gsvars, scanvars>>
Spec == Init /\ [][Next]_<<gsvars, scanvars, sid, idx>>
=============================================================================
