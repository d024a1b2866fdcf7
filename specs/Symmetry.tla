------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* The symmetries of a w x h grid whose cells are numbered in reading      *)
(* order from 0: where each cell goes.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES w, h
Cells == 0..(w * h - 1)
Cell(x, y) == y * w + x
Col(p) == p % w
Row(p) == p \div w

FlipH(p) == Cell(w - 1 - Col(p), Row(p))
FlipV(p) == Cell(Col(p), h - 1 - Row(p))
\* On square grids: (x, y) goes to (max - y, x), or (y, max - x)
TurnCw(p) == Cell(w - 1 - Row(p), Col(p))
TurnCc(p) == Cell(Row(p), w - 1 - Col(p))

Image(sym, p) == CASE sym = "fliph" -> FlipH(p) [] sym = "flipv" -> FlipV(p)
                   [] sym = "cw" -> TurnCw(p) [] sym = "cc" -> TurnCc(p)
Inverse(sym) == CASE sym = "cw" -> "cc" [] sym = "cc" -> "cw" [] OTHER -> sym
Symmetries == IF w = h THEN {"fliph", "flipv", "cw", "cc"} ELSE {"fliph", "flipv"}
=============================================================================
