------------------------------ MODULE MCUcHeap ------------------------------
(* The heap of the library yields what UniformCost allows, on all small      *)
(* terrains; and what UniformCost settles are the cheapest costs.            *)
EXTENDS SmallTerrains, UcHeap
CONSTANTS Diag, Costs, TheOrigin
SomeCosts == {-1, 0, 1, 3}
FewCosts == {-1, 1, 3}
VARIABLES settled, best
mcvars == <<hvars, settled, best>>
UC == INSTANCE UniformCost
CostOf(f) == [i \in 1..(w * h) |-> [k \in 1..8 |->
    IF <<i - 1, k - 1>> \in DOMAIN f THEN BigOf(f[<<i - 1, k - 1>>]) ELSE BigZero]]
Init == /\ Dims(WS, HS) /\ usable = Considered(Diag)
        /\ orig \in TheOrigin
        \* a cost of -1: no movement
        /\ \E f \in [AllEdges -> Costs] :
              /\ go = GoWithout({ e \in AllEdges : f[e] = -1 })
              /\ cost = CostOf([e \in AllEdges |-> IF f[e] = -1 THEN 0 ELSE f[e]])
        /\ Start /\ UC!Start
Next == \/ Skip /\ UNCHANGED <<settled, best>>
        \/ Yield /\ settled' = settled \cup {yielded'[1]}
                 /\ best' = UC!Relax(yielded'[1], usable, best)
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)
Refines == [][(Yield => UC!Step(yielded'[1], yielded'[2])) /\ (Skip => UNCHANGED <<settled, best>>)]_mcvars
EndsWithIt == heap = {} => UC!Fringe = {}
Ends == <>(heap = {})

\* The cheapest walk of exactly k steps to a cell, by definition
RECURSIVE Walks(_)
Walks(k) == IF k = 0 THEN { <<orig, 0>> }
            ELSE { <<Dest(s[1], d), s[2] + BigVal(Cost(s[1], d))>> : s \in Walks(k - 1), d \in usable } \ { <<-1, n>> : n \in 0..40 }
AllWalks == UNION { Walks(k) : k \in 0..(w * h - 1) }
SettledAreCheapest ==
    heap = {} => \A p \in Cells :
        /\ (p \in settled) = (\E s \in AllWalks : s[1] = p)
        /\ p \in settled => /\ \E s \in AllWalks : s[1] = p /\ BigOf(s[2]) = best[p][1]
                            /\ \A s \in AllWalks : s[1] = p => BigLe(best[p][1], BigOf(s[2]))
=============================================================================
