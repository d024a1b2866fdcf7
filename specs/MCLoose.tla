------------------------------ MODULE MCLoose ------------------------------
(* Comparing sequences cell by cell, until some pair of cells isn't equal,   *)
(* is a partial order in the sense of Ranking, also if there are cells that  *)
(* can't be compared.                                                        *)
EXTENDS Ranking, TLC
CONSTANTS N, Cells
Cell == {1, 2, Odd}
Init == /\ items \in UNION { [1..n -> [1..Cells -> Cell]] : n \in 1..N } /\ numeric = FALSE /\ Start
CmpCell(a, b) == IF a = Odd \/ b = Odd THEN None ELSE IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
RECURSIVE From(_, _, _)
From(s, t, c) == IF c > Cells THEN 0
                 ELSE IF CmpCell(s[c], t[c]) # 0 THEN CmpCell(s[c], t[c])
                 ELSE From(s, t, c + 1)
Lexical == TLCEval([i \in Values |-> [j \in Values |-> From(items[i], items[j], 1)]])
Next == UNCHANGED rkvars
Spec == Init /\ [][Next]_rkvars
Accepted == PartialOrder(Lexical)
\* A shortcut for a value and itself is seen
Same == [i \in Values |-> [j \in Values |-> IF i = j THEN 0 ELSE Lexical[i][j]]]
Shortcut == (\E i \in Values : ~Plain(i)) => ~PartialOrder(Same)
=============================================================================
