---------------------------- MODULE MCPathSearch ----------------------------
(* Distances and cheapest costs are what their definitions by walks say, and *)
(* the answers that are allowed exist.                                       *)
EXTENDS SmallTerrains, PathSearch
CONSTANTS Diag, Costs, TheOrigin
SomeCosts == {-1, 0, 1, 3}
FewCosts == {-1, 1, 3}
CostOf(f) == [i \in 1..(w * h) |-> [k \in 1..8 |->
    IF <<i - 1, k - 1>> \in DOMAIN f THEN BigOf(f[<<i - 1, k - 1>>]) ELSE BigZero]]
Init == /\ Dims(WS, HS) /\ usable = Considered(Diag)
        /\ orig \in TheOrigin
        /\ \E f \in [AllEdges -> Costs] :
              /\ go = GoWithout({ e \in AllEdges : f[e] = -1 })
              /\ cost = CostOf([e \in AllEdges |-> IF f[e] = -1 THEN 0 ELSE f[e]])
        /\ Start
Next == Survey
Spec == Init /\ [][Next]_psvars

RECURSIVE Walks(_)
Walks(k) == IF k = 0 THEN { <<orig, 0>> }
            ELSE { <<Dest(s[1], d), s[2] + BigVal(Cost(s[1], d))>> : s \in Walks(k - 1), d \in usable } \ { <<-1, n>> : n \in 0..40 }
AllWalks == UNION { Walks(k) : k \in 0..(w * h - 1) }
Right == dist # <<>> => LET all == AllWalks IN \A p \in Cells :
    /\ dist[p] = TrueDist(p)
    /\ (cheap[p] = <<>>) = (dist[p] = -1)
    /\ dist[p] # -1 => /\ \E s \in all : s[1] = p /\ BigOf(s[2]) = cheap[p][1]
                       /\ \A s \in all : s[1] = p => BigLe(cheap[p][1], BigOf(s[2]))
Paths == UNION { [1..k -> usable] : k \in 0..(w * h - 1) }
Answers == { <<"ok", path>> : path \in Paths } \cup { Unreachable, <<"err", "InvalidMovement">>, <<"err", "Loop">> }
\* There is always some answer; it is a path exactly if there is a way
Answerable == (dist # <<>> /\ w * h <= 3) => \A p \in Cells :
    /\ \E r \in Answers : Astar(p, r)
    /\ \E r \in Answers : Ucs(p, r)
    /\ \A r \in Answers : (Astar(p, r) \/ Ucs(p, r)) => ((r[1] = "ok") = (dist[p] # -1))
    /\ \A r \in Answers : Ucs(p, r) => r[1] = "err" \/ \A q \in Paths : Walk(q) = p => BigLe(PathCost(r[2]), PathCost(q))
    /\ \A r \in Answers : Astar(p, r) => r[1] = "err" \/ \A q \in Paths : Walk(q) = p => Len(r[2]) <= Len(q)
=============================================================================
