--------------------------- MODULE TraceOwnership ---------------------------
(* Recorded uses of grids of values that tell when they are made and       *)
(* dropped, against Ownership.                                             *)
EXTENDS Ownership, Replay
Init ==
    /\ ReplayInit
    /\ w = Params.w /\ h = Params.h
    /\ cells = <<>> /\ copy = <<>> /\ hand = {} /\ live = {}
Act ==
    \/ On("default") /\ Default(E.cells, E.born, E.r, E.risky)
    \/ On("collect") /\ Collect(E.ts, E.r, E.risky)
    \/ On("fromlists") /\ FromLists(E.lists, E.cells, E.born, E.r, E.risky)
    \/ On("extendlists") /\ ExtendLists(E.lists, E.r)
    \/ On("write") /\ Write(E.p, E.t)
    \/ On("replace") /\ Replace(E.p, E.t)
    \/ On("take") /\ TakeOut(E.p, E.cells, E.born)
    \/ On("extend") /\ Extend(E.pairs, E.n, E.r)
    \/ On("transform") /\ Transform(E.sym)
    \/ On("clone") /\ Clone(E.copy, E.born, E.r, E.risky)
    \/ On("swap") /\ SwapGrids
    \/ On("consume") /\ Consume(E.front, E.back)
    \/ On("drop") /\ DropGrid
    \/ On("dropcopy") /\ DropCopy
    \/ On("release") /\ Release(E.ts)
\* What is seen afterwards
Seen == cells' = E.cells /\ copy' = E.copy /\ hand' = Held(E.hand)
Next == \/ More /\ Take /\ Act /\ Seen /\ Settle(E.made, E.born, E.dropped)
        \/ Finished /\ UNCHANGED owvars
Spec == Init /\ [][Next]_<<owvars, sid, idx>>
=============================================================================
