---------------------------- MODULE TracePrinter ----------------------------
(* Recorded texts of grids and other things against Printer. *)
EXTENDS Printer, Replay
Init == /\ ReplayInit
        /\ w = Params.w /\ h = Params.h /\ fmt = Params.fmt
        /\ texts = <<>> /\ printed = 0
Step ==
    \* The contents of the grid, by what each cell alone is displayed as
    \/ On("texts") /\ Len(E.cells) = w * h /\ texts' = E.cells /\ UNCHANGED <<w, h, fmt, printed>>
    \/ On("bits") /\ Len(E.cells) = w * h
       /\ texts' = TLCEval([i \in DOMAIN E.cells |-> BoolText(E.cells[i] = 1)])
       /\ UNCHANGED <<w, h, fmt, printed>>
    \/ On("line") /\ Emit(E.s)
    \/ On("done") /\ Done(E.s)
    \/ On("pos") /\ E.s = PosText(E.x, E.y) /\ UNCHANGED prvars
    \/ On("int") /\ E.s = BigText(E.n) /\ UNCHANGED prvars
    \/ On("dir") /\ E.s = DirText(E.d) /\ UNCHANGED prvars
Next == \/ More /\ Take /\ Step
        \/ Finished /\ UNCHANGED prvars
Spec == Init /\ [][Next]_<<prvars, sid, idx>>
=============================================================================
