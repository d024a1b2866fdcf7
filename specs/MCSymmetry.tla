----------------------------- MODULE MCSymmetry -----------------------------
(***************************************************************************)
(* The symmetries form a group: `place[p + 1]` is where the value that     *)
(* was at p is, after any sequence of symmetries.  Only the eight          *)
(* arrangements that leave neighbors neighbors can be reached (four of     *)
(* them on grids that are not square), none of them loses a value.         *)
(***************************************************************************)
EXTENDS Symmetry, FiniteSets
CONSTANTS MaxW, MaxH
VARIABLE place
vars == <<w, h, place>>
Init == w \in 1..MaxW /\ h \in 1..MaxH /\ place = [i \in 1..(w * h) |-> i - 1]
Apply(sym) == place' = [i \in DOMAIN place |-> Image(sym, place[i])] /\ UNCHANGED <<w, h>>
Flip == \E sym \in {"fliph", "flipv"} : Apply(sym)
Turn == \E sym \in Symmetries \cap {"cw", "cc"} : Apply(sym)
Next == Flip \/ Turn
Spec == Init /\ [][Next]_vars

Abs(n) == IF n < 0 THEN -n ELSE n
Distance(p, q) == Abs(Col(p) - Col(q)) + Abs(Row(p) - Row(q))
Permutation == { place[i] : i \in DOMAIN place } = Cells
Rigid == \A i, j \in DOMAIN place : Distance(place[i], place[j]) = Distance(i - 1, j - 1)
\* Laws, cell by cell
Laws == \A p \in Cells :
    /\ FlipH(FlipH(p)) = p /\ FlipV(FlipV(p)) = p
    /\ FlipH(FlipV(p)) = FlipV(FlipH(p))
    /\ w = h => /\ TurnCw(TurnCc(p)) = p /\ TurnCc(TurnCw(p)) = p
                /\ TurnCw(TurnCw(p)) = FlipH(FlipV(p))
                /\ TurnCw(TurnCw(TurnCw(TurnCw(p)))) = p
                /\ TurnCw(FlipH(p)) = FlipH(TurnCc(p))
    /\ \A sym \in Symmetries : Image(Inverse(sym), Image(sym, p)) = p
Inv == Permutation /\ Rigid /\ Laws
=============================================================================
