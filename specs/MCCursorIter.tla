---------------------------- MODULE MCCursorIter ----------------------------
(* All small grids, both orders, any interleaving of the ends, with a copy.  *)
(* Refines SeqSource started with the positions in reading/column order.     *)
EXTENDS CursorIter, TLC
CONSTANTS W, H, Copies

Init == /\ \E w \in 1..W, h \in 1..H, ox, oy \in {-1, 0} :
             /\ xlo = BigOf(ox) /\ xhi = BigOf(ox + w - 1)
             /\ ylo = BigOf(oy) /\ yhi = BigOf(oy + h - 1)
        /\ across \in BOOLEAN
        /\ Start
\* A copy is only taken once, to keep this finite and small
DoSave == Copies /\ saved = <<>> /\ Save
Switch == Copies /\ Swap
x0 == BigVal(xlo)
y0 == BigVal(ylo)
w == BigVal(xhi) - x0 + 1
h == BigVal(yhi) - y0 + 1
\* The positions in the order of the iteration, by the textbook
Order == IF across
         THEN [i \in 1..(w * h) |-> <<BigOf(x0 + ((i - 1) % w)), BigOf(y0 + ((i - 1) \div w))>>]
         ELSE [i \in 1..(w * h) |-> <<BigOf(x0 + ((i - 1) \div h)), BigOf(y0 + ((i - 1) % h))>>]
At(p) == CHOOSE i \in 1..(w * h) : Order[i] = p
Rem == IF cur = <<>> THEN <<>> ELSE LET o == Order IN SubSeq(o, At(cur[1]), At(end[1]))

Source == INSTANCE SeqSource WITH rem <- Rem, out <- out, Initial <- {}
Answers == {<<>>} \cup { <<Order[i]>> : i \in DOMAIN Order }
Skips == \E n \in 0..(w * h + 1), r \in Answers : FrontNth(BigOf(n), r) \/ BackNth(BigOf(n), r)
Bulk == \/ All(Rem, 1) \/ All(Source!Reversed(Rem), -1)
        \/ \E n \in 0..(w * h + 1) : Count(BigOf(n))
Next == Front \/ Back \/ DoSave \/ Switch
NextAll == Next \/ Skips \/ Bulk
SpecAll == Init /\ [][NextAll]_citvars /\ WF_citvars(Front)
Spec == Init /\ [][Next]_citvars /\ WF_citvars(Front)

\* Refinement: while the copy isn't swapped in, this is a sequence consumed
\* from its ends
Refines == [][Source!Next \/ DoSave \/ Switch]_<<Rem, out>>
\* Skips and bulk operations are what they are for any source
MeansIt ==
    [][ /\ \A n \in 0..(w * h + 1) : \A r \in Answers :
              /\ FrontNth(BigOf(n), r) <=> (Source!FrontNth(n) /\ out' = r /\ UNCHANGED <<bounds, saved>>)
              /\ BackNth(BigOf(n), r) <=> (Source!BackNth(n) /\ out' = r /\ UNCHANGED <<bounds, saved>>)
        /\ \A n \in 0..(w * h + 1) : Count(BigOf(n)) => Source!Count(n)
        /\ All(Rem, 1) => Source!All(Rem)
        /\ All(Source!Reversed(Rem), -1) => Source!AllBack(Source!Reversed(Rem)) ]_citvars
StartsRight == TLCGet("level") = 1 => (Rem = Order /\ out = <<>>)
LeftIsRight == Left = BigOf(Len(Rem))
\* Single steps are steps of the order, and are inverse
StepsRight == LET o == Order IN
    \A i \in 1..(w * h) :
        /\ Rank(o[i]) = BigOf(i - 1)
        /\ IsPos(o[i])
        /\ Forth(o[i]) = IF i = w * h THEN <<>> ELSE <<o[i + 1]>>
        /\ Back1(o[i]) = IF i = 1 THEN <<>> ELSE <<o[i - 1]>>
\* The iteration ends
Ends == <>(cur = <<>>)
=============================================================================
