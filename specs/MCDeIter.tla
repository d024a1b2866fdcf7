------------------------------ MODULE MCDeIter ------------------------------
EXTENDS DeIter, TLC
CONSTANT N
Small == { BigOf(n) : n \in (-N)..N }
Init == \E a, b \in Small : BigLe(a, b) /\ NewIter(a, b)
Skip == \E n \in 0..(2 * N + 2) : FrontNth(BigOf(n)) \/ BackNth(BigOf(n))
Runs == { [i \in 1..k |-> BigOf(a + i - 1)] : a \in (-N)..N, k \in 0..(2 * N + 1) }
        \cup { [i \in 1..k |-> BigOf(a - i + 1)] : a \in (-N)..N, k \in 0..(2 * N + 1) }
Bulk == \/ \E s \in Runs, up \in BOOLEAN : All(s, up)
        \/ \E n \in 0..(2 * N + 2) : Count(BigOf(n))
        \/ \E r \in {<<>>} \cup { <<BigOf(n)>> : n \in (-N)..N } : LastOne(r)
Next == Front \/ Back \/ Skip \/ Bulk
Spec == Init /\ [][Next]_itvars

\* Refinement: the values between the cursors are the sequence left
Remaining ==
    IF start = <<>> THEN <<>>
    ELSE [i \in 1..(BigVal(end[1]) - BigVal(start[1]) + 1) |-> BigOf(BigVal(start[1]) + i - 1)]
Starts == { [i \in 1..(b - a + 1) |-> BigOf(a + i - 1)] : a, b \in (-N)..N }
Abs == INSTANCE SeqSource WITH Initial <- Starts, rem <- Remaining
Refines == Abs!Spec
\* The same, one operation at a time, with what each is allowed to say
MeansIt ==
    [][ /\ \A n \in 0..(2 * N + 2) : /\ FrontNth(BigOf(n)) => Abs!FrontNth(n)
                                     /\ BackNth(BigOf(n)) => Abs!BackNth(n)
                                     /\ Count(BigOf(n)) => Abs!Count(n)
        /\ \A s \in Runs : /\ All(s, TRUE) <=> Abs!All(s)
                           /\ All(s, FALSE) <=> Abs!AllBack(s)
        /\ \A r \in {<<>>} \cup { <<BigOf(n)>> : n \in (-N)..N } : LastOne(r) <=> Abs!LastOne(r) ]_itvars
HintExact == BigVal(Left) = Len(Remaining)
\* The hint predicate accepts exactly the brackets
HintMeaning ==
    \A low \in 0..(2 * N + 2), high \in 0..(2 * N + 2) :
        /\ HintOK(BigOf(low), <<BigOf(high)>>) = (low <= Len(Remaining) /\ Len(Remaining) <= high)
        /\ HintOK(BigOf(low), <<>>) = (low <= Len(Remaining))
=============================================================================
