---------------------------- MODULE MCRangeIter ----------------------------
(* All rectangles within a small grid; refines SeqSource.                    *)
EXTENDS RangeIter
CONSTANTS N, Copies
Init == /\ left \in { BigOf(i) : i \in 0..N } /\ right \in { BigOf(i) : i \in 0..N }
        /\ top \in { BigOf(i) : i \in 0..N } /\ bottom \in { BigOf(i) : i \in 0..N }
        /\ BigLe(left, right) /\ BigLe(top, bottom)
        /\ Start
x0 == BigVal(left)
y0 == BigVal(top)
w == BigVal(right) - x0 + 1
h == BigVal(bottom) - y0 + 1
Order == [i \in 1..(w * h) |-> <<BigOf(x0 + ((i - 1) % w)), BigOf(y0 + ((i - 1) \div w))>>]
At(p) == CHOOSE i \in 1..(w * h) : Order[i] = p
Rem == IF cur = <<>> THEN <<>> ELSE LET o == Order IN SubSeq(o, At(cur[1]), w * h)
Cells == { <<BigOf(x), BigOf(y)>> : x, y \in 0..N }
Skips == \E n \in 0..((N + 1) * (N + 1)), r \in {<<>>} \cup { <<p>> : p \in Cells } : FrontNth(BigOf(n), r)
Bulk == \/ All(Rem)
        \/ \E n \in 0..((N + 1) * (N + 1)) : Count(BigOf(n))
        \/ \E r \in {<<>>} \cup { <<p>> : p \in Cells } : LastOne(r)
DoSave == Copies /\ saved = <<>> /\ Save
DoSwap == Copies /\ Swap
Next == Front \/ Skips \/ Bulk \/ DoSave \/ DoSwap
Spec == Init /\ [][Next]_ritvars /\ WF_ritvars(Front)
Source == INSTANCE SeqSource WITH rem <- Rem, out <- out, Initial <- {}
Refines == [][Source!Next \/ DoSwap]_<<Rem, out>>
\* Skips and bulk operations are what they are for any source
MeansIt ==
    [][ /\ \A n \in 0..((N + 1) * (N + 1)) :
              /\ \A r \in {<<>>} \cup { <<p>> : p \in Cells } : FrontNth(BigOf(n), r) <=> (Source!FrontNth(n) /\ out' = r /\ UNCHANGED <<rect, saved>>)
              /\ Count(BigOf(n)) => Source!Count(n)
        /\ \A r \in {<<>>} \cup { <<p>> : p \in Cells } : LastOne(r) => Source!LastOne(r)
        /\ All(Rem) => Source!All(Rem) ]_ritvars
LeftIsRight == Left = BigOf(Len(Rem))
Ends == <>(cur = <<>>)
=============================================================================
