------------------------------ MODULE RingTurn ------------------------------
(***************************************************************************)
(* How sqrid flips and rotates in place (properties C15 and C17): pairs of *)
(* cells are swapped, or rings of four cells are rotated, one after the    *)
(* other.  `at` has the value of each cell, which is initially its own     *)
(* number; `todo` has the cells from which pairs and rings start.          *)
(*                                                                         *)
(* Variant "rings" is the loop of Grid, "bits" the one of Gridbool, and    *)
(* "short" one that stops before the innermost ring of even sizes.         *)
(***************************************************************************)
EXTENDS Symmetry, FiniteSets
CONSTANT Variant
VARIABLES sym, at, todo
vars == <<w, h, sym, at, todo>>

Starts ==
    CASE sym = "fliph" -> { p \in Cells : Col(p) < w \div 2 }
      [] sym = "flipv" -> { p \in Cells : Row(p) < h \div 2 }
      [] OTHER ->
           { p \in Cells :
               CASE Variant = "rings" -> Row(p) < h \div 2 /\ Row(p) <= Col(p) /\ Col(p) < h - 1 - Row(p)
                 [] Variant = "bits" -> Row(p) < (h - 1) \div 2 + 1 /\ Row(p) <= Col(p) /\ Col(p) < (h - 1) - Row(p)
                 [] Variant = "short" -> Row(p) < (h - 1) \div 2 /\ Row(p) <= Col(p) /\ Col(p) < (h - 1) - Row(p) }
Begin(n, m, s) ==
    /\ w = n /\ h = m /\ sym = s
    /\ s \in Symmetries
    /\ at = [i \in 1..(w * h) |-> i - 1]
    /\ todo = Starts
\* From p, its image, its image's image and so on
Ring(p) == LET q == Image(sym, p) r == Image(sym, q) IN <<p, q, r, Image(sym, r)>>
Step(p) ==
    /\ p \in todo
    /\ todo' = todo \ {p}
    /\ LET ring == Ring(p)
       IN at' = [i \in DOMAIN at |->
                  IF \E k \in 1..4 : ring[k] = i - 1
                  THEN at[ring[IF i - 1 = ring[1] THEN 4 ELSE (CHOOSE k \in 2..4 : ring[k] = i - 1) - 1] + 1]
                  ELSE at[i]]
    /\ UNCHANGED <<w, h, sym>>
\* What the grid is to be like
Turned == \A p \in Cells : at[Image(sym, p) + 1] = p
=============================================================================
