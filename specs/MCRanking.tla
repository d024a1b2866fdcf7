----------------------------- MODULE MCRanking -----------------------------
(* What Compare accepts ranks the values: there is a number for each such    *)
(* that comparing the values is comparing the numbers.                       *)
EXTENDS Ranking
CONSTANTS N
Init == /\ items \in UNION { [1..n -> 1..3] : n \in 1..N } /\ numeric = FALSE /\ Start
Cmp(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
Next == \E o \in [Values -> [Values -> {-1, 0, 1}]] :
            Compare([i \in Values |-> [j \in Values |-> items[i] = items[j]]], o, items)
Spec == Init /\ [][Next]_rkvars
Ranked == order # <<>> => \E rank \in [1..3 -> 1..3] : \A i, j \in Values : order[i][j] = Cmp(rank[items[i]], rank[items[j]])
\* Every ranking is accepted
AllAccepted == \A rank \in [1..3 -> 1..3] :
    (\A a, b \in 1..3 : a # b => rank[a] # rank[b])
    => TotalOrder([i \in Values |-> [j \in Values |-> Cmp(rank[items[i]], rank[items[j]])]])
\* and allows to sort
Sortable == order # <<>> => \E r \in [Values -> Values] : IsSorted(r)
=============================================================================
