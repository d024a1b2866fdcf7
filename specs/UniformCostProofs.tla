------------------------- MODULE UniformCostProofs -------------------------
(***************************************************************************)
(* Why searching by uniform cost is right, for terrains of every size and  *)
(* shape: the steps of module UniformCost, with plain numbers as costs and *)
(* any graph as terrain, settle cells at the cost of their cheapest ways,  *)
(* and with all costs being 1 (breadth-first) layer by layer; proved with  *)
(* the TLA+ proof system.  (The model checker runs UniformCost itself on   *)
(* small grids, and the traces of the library are compared with it.)       *)
(***************************************************************************)
EXTENDS Ways

VARIABLES settled, known, best
vars == <<settled, known, best>>
\* `known` are the cells with a best cost

Init == /\ settled = {}
        /\ known = {orig}
        /\ best \in [Node -> Nat] /\ best[orig] = 0
Fringe == known \ settled
Cheapest(p) == p \in Fringe /\ \A q \in Fringe : best[p] <= best[q]
Through(p, q) == best[p] + Cost[<<p, q>>]
Settle(p) ==
    /\ Cheapest(p)
    /\ settled' = settled \cup {p}
    /\ known' = known \cup { q \in Node : <<p, q>> \in Edge }
    /\ best' = [q \in Node |->
                  IF <<p, q>> \notin Edge \/ q \in settled \cup {p} THEN best[q]
                  ELSE IF q \notin known \/ Through(p, q) < best[q] THEN Through(p, q)
                  ELSE best[q]]
Next == \E p \in Node : Settle(p)
Spec == Init /\ [][Next]_vars

TypeOK == /\ settled \subseteq known /\ known \subseteq Node
          /\ orig \in known
          /\ best \in [Node -> Nat]
\* Cells are settled from the cheapest to the dearest
Ordered == \A p \in settled, q \in Fringe : best[p] <= best[q]
\* Nothing is cheaper than what is known by one movement more
Relaxed == \A p \in settled, q \in Node :
    <<p, q>> \in Edge => q \in known /\ best[q] <= Through(p, q)
Origin == best[orig] = 0
Inv == TypeOK /\ Ordered /\ Relaxed /\ Origin

THEOREM Invariant == Spec => []Inv
<1>1 Init => Inv
  BY Terrain DEF Init, Inv, TypeOK, Ordered, Relaxed, Origin, Fringe
<1>2 Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1 CASE UNCHANGED vars
    BY <2>1 DEF Inv, TypeOK, Ordered, Relaxed, Origin, Fringe, vars, Through
  <2>2 CASE Next
    <3>1 PICK p \in Node : Settle(p) BY <2>2 DEF Next
    <3>2 p \in known /\ p \notin settled /\ \A q \in known \ settled : best[p] <= best[q]
      BY <3>1 DEF Settle, Cheapest, Fringe
    <3>3 settled' = settled \cup {p} /\ known' = known \cup { q \in Node : <<p, q>> \in Edge }
      BY <3>1 DEF Settle
    <3>4 \A q \in Node : <<p, q>> \in Edge => Cost[<<p, q>>] \in Nat BY Terrain
    <3>5 best' = [q \in Node |->
                  IF <<p, q>> \notin Edge \/ q \in settled \cup {p} THEN best[q]
                  ELSE IF q \notin known \/ Through(p, q) < best[q] THEN Through(p, q)
                  ELSE best[q]]
      BY <3>1 DEF Settle
    <3>6 \A q \in Node : best[q] \in Nat BY DEF Inv, TypeOK
    <3>7 \A q \in Node : best'[q] \in Nat BY <3>4, <3>5, <3>6 DEF Through
    <3>8 TypeOK'
      <4>1 best' \in [Node -> Nat] BY <3>5, <3>7
      <4> QED BY <4>1, <3>2, <3>3 DEF Inv, TypeOK
    <3>9 \A q \in settled' : best'[q] = best[q]
      BY <3>3, <3>5 DEF Inv, TypeOK
    <3>10 \A q \in Node : best'[q] >= best[p] \/ q \in settled \/ q \notin known'
      BY <3>2, <3>3, <3>4, <3>5, <3>6 DEF Through
    <3>11 \A q \in settled : best[q] <= best[p] BY <3>2 DEF Inv, Ordered, Fringe
    <3>12 Ordered'
      <4> SUFFICES ASSUME NEW s \in settled', NEW q \in known' \ settled' PROVE best'[s] <= best'[q]
        BY DEF Ordered, Fringe
      <4>1 s \in Node /\ q \in Node BY <3>3, <3>8 DEF TypeOK
      <4>2 best'[s] = best[s] /\ best[s] <= best[p]
        <5>1 s = p \/ s \in settled BY <3>3
        <5>2 best[p] <= best[p] BY <3>6
        <5> QED BY <3>9, <3>11, <5>1, <5>2
      <4>3 best'[q] >= best[p] BY <3>3, <3>10, <4>1
      <4> QED BY <4>1, <4>2, <4>3, <3>6, <3>7
    <3>13 Relaxed'
      <4> SUFFICES ASSUME NEW s \in settled', NEW q \in Node, <<s, q>> \in Edge
          PROVE q \in known' /\ best'[q] <= best'[s] + Cost[<<s, q>>]
        BY DEF Relaxed, Through
      <4>0 s \in Node /\ Cost[<<s, q>>] \in Nat BY Terrain
      <4>1 best'[s] = best[s] BY <3>9
      <4>2 CASE s = p
        <5>1 q \in known' BY <3>3, <4>2
        <5>2 CASE q \in settled \cup {p}
          <6>1 best'[q] = best[q] BY <3>9, <3>3, <5>2
          <6>2 best[q] <= best[p] BY <3>11, <3>6, <5>2
          <6> QED BY <4>0, <4>1, <4>2, <5>1, <6>1, <6>2, <3>6
        <5>3 CASE q \notin settled \cup {p}
          <6>1 best'[q] = IF q \notin known \/ Through(p, q) < best[q] THEN Through(p, q) ELSE best[q]
            BY <3>5, <5>3, <4>2
          <6>2 best'[q] <= Through(p, q)
            BY <6>1, <3>4, <3>6, <4>2 DEF Through
          <6> QED BY <6>2, <4>1, <4>2, <5>1 DEF Through
        <5> QED BY <5>2, <5>3
      <4>3 CASE s \in settled
        <5>1 q \in known /\ best[q] <= best[s] + Cost[<<s, q>>] BY <4>3 DEF Inv, Relaxed, Through
        <5>2 best'[q] <= best[q] BY <5>1, <3>4, <3>5, <3>6 DEF Through
        <5> QED BY <5>1, <5>2, <4>0, <4>1, <3>3, <3>6, <3>7
      <4> QED BY <4>2, <4>3, <3>3
    <3>14 Origin'
      BY <3>2, <3>4, <3>5, <3>6 DEF Inv, TypeOK, Origin, Through
    <3> QED BY <3>8, <3>12, <3>13, <3>14 DEF Inv
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* No way to a settled cell is cheaper than what the cell was settled for
THEOREM Optimal == ASSUME Inv, NEW n \in Nat, NEW f, NEW c, Way(f, c, n), f[n] \in settled
                   PROVE best[f[n]] <= c[n]
<1> DEFINE Out(i) == \E q \in Fringe : best[q] <= c[i]
           P(i) == i <= n => ((f[i] \in known /\ best[f[i]] <= c[i]) \/ Out(i))
<1>0 \A q \in Node : best[q] \in Nat BY DEF Inv, TypeOK
<1>1 P(0)
  <2>1 f[0] = orig /\ c[0] = 0 BY DEF Way
  <2>2 orig \in known /\ best[orig] = 0 BY DEF Inv, TypeOK, Origin
  <2> QED BY <2>1, <2>2
<1>2 ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
  <2> SUFFICES ASSUME i + 1 <= n PROVE (f[i + 1] \in known /\ best[f[i + 1]] <= c[i + 1]) \/ Out(i + 1)
    OBVIOUS
  <2>1 i \in 0..n /\ i + 1 \in 0..n /\ i + 1 \in 1..n /\ (i + 1) - 1 = i OBVIOUS
  <2>2 /\ <<f[i], f[i + 1]>> \in Edge
       /\ c[i + 1] = c[i] + Cost[<<f[i], f[i + 1]>>]
    BY <2>1 DEF Way
  <2>3 f[i] \in Node /\ f[i + 1] \in Node /\ c[i] \in Nat /\ c[i + 1] \in Nat BY <2>1 DEF Way
  <2>4 Cost[<<f[i], f[i + 1]>>] \in Nat BY <2>2, Terrain
  <2>5 c[i] <= c[i + 1] BY <2>2, <2>3, <2>4
  <2>6 CASE Out(i)
    <3>1 PICK q \in Fringe : best[q] <= c[i] BY <2>6
    <3>2 best[q] \in Nat BY <1>0 DEF Fringe, Inv, TypeOK
    <3>3 best[q] <= c[i + 1] BY <3>1, <3>2, <2>3, <2>5
    <3> QED BY <3>3
  <2>7 CASE f[i] \in known /\ best[f[i]] <= c[i] /\ f[i] \in settled
    <3>1 f[i + 1] \in known /\ best[f[i + 1]] <= best[f[i]] + Cost[<<f[i], f[i + 1]>>]
      BY <2>2, <2>3, <2>7 DEF Inv, Relaxed, Through
    <3>2 best[f[i]] \in Nat /\ best[f[i + 1]] \in Nat BY <1>0, <2>3
    <3>3 best[f[i + 1]] <= c[i + 1] BY <3>1, <3>2, <2>2, <2>3, <2>4, <2>7
    <3> QED BY <3>1, <3>3
  <2>8 CASE f[i] \in known /\ best[f[i]] <= c[i] /\ f[i] \notin settled
    <3>1 f[i] \in Fringe BY <2>8 DEF Fringe
    <3>2 best[f[i]] \in Nat BY <1>0, <2>3
    <3>3 best[f[i]] <= c[i + 1] BY <2>3, <2>5, <2>8, <3>2
    <3> QED BY <3>1, <3>3
  <2>9 (f[i] \in known /\ best[f[i]] <= c[i]) \/ Out(i) BY <1>2, <2>1
  <2> QED BY <2>6, <2>7, <2>8, <2>9
<1>3 \A i \in Nat : P(i)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1>4 n \in 0..n /\ f[n] \in Node /\ c[n] \in Nat BY DEF Way
<1>5 (f[n] \in known /\ best[f[n]] <= c[n]) \/ Out(n) BY <1>3
<1>6 CASE Out(n)
  <2>1 PICK q \in Fringe : best[q] <= c[n] BY <1>6
  <2>2 best[f[n]] <= best[q] BY <2>1 DEF Inv, Ordered
  <2>3 best[q] \in Nat /\ best[f[n]] \in Nat BY <1>0, <1>4 DEF Fringe, Inv, TypeOK
  <2> QED BY <2>1, <2>2, <2>3, <1>4
<1> QED BY <1>5, <1>6

\* ... and when nothing is left to settle, every cell with a way is settled
THEOREM Complete == ASSUME Inv, Fringe = {}, NEW n \in Nat, NEW f, NEW c, Way(f, c, n)
                    PROVE f[n] \in settled
<1> DEFINE P(i) == i <= n => f[i] \in settled
<1>1 P(0) BY DEF Way, Fringe, Inv, TypeOK
<1>2 ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
  <2> SUFFICES ASSUME i + 1 <= n PROVE f[i + 1] \in settled OBVIOUS
  <2>1 i \in 0..n /\ i + 1 \in 0..n /\ i + 1 \in 1..n /\ (i + 1) - 1 = i OBVIOUS
  <2>2 <<f[i], f[i + 1]>> \in Edge /\ f[i + 1] \in Node BY <2>1 DEF Way
  <2>3 f[i] \in settled BY <1>2, <2>1
  <2>4 f[i + 1] \in known BY <2>2, <2>3 DEF Inv, Relaxed
  <2> QED BY <2>4 DEF Fringe
<1>3 \A i \in Nat : P(i)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3

\* What is known of a cell is the cost of one of its ways
Attained == \A q \in known : IsWay(q, best[q])

THEOREM Sound == Spec => []Attained
<1>1 Init => Attained
  <2> SUFFICES ASSUME Init PROVE IsWay(orig, 0) BY DEF Init, Attained
  <2> DEFINE f == [i \in 0..0 |-> orig]
             c == [i \in 0..0 |-> 0]
  <2>1 Way(f, c, 0) BY Terrain DEF Way
  <2>2 0 \in Nat /\ f[0] = orig /\ c[0] = 0 OBVIOUS
  <2> HIDE DEF f, c
  <2> QED BY <2>1, <2>2 DEF IsWay
<1>2 Inv /\ Attained /\ [Next]_vars => Attained'
  <2> SUFFICES ASSUME Inv, Attained, [Next]_vars PROVE Attained' OBVIOUS
  <2>1 CASE UNCHANGED vars BY <2>1 DEF Attained, vars
  <2>2 CASE Next
    <3>1 PICK p \in Node : Settle(p) BY <2>2 DEF Next
    <3>2 p \in known BY <3>1 DEF Settle, Cheapest, Fringe
    <3> SUFFICES ASSUME NEW q \in known' PROVE IsWay(q, best'[q]) BY DEF Attained
    <3>3 q \in Node /\ (q \in known \/ <<p, q>> \in Edge) BY <3>1 DEF Settle, Inv, TypeOK
    <3>4 best'[q] = IF <<p, q>> \notin Edge \/ q \in settled \cup {p} THEN best[q]
                    ELSE IF q \notin known \/ Through(p, q) < best[q] THEN Through(p, q)
                    ELSE best[q]
      BY <3>1, <3>3 DEF Settle
    <3>5 settled \cup {p} \subseteq known BY <3>2 DEF Inv, TypeOK
    <3>6 CASE best'[q] = best[q] /\ q \in known BY <3>6 DEF Attained
    <3>7 CASE best'[q] = Through(p, q) /\ <<p, q>> \in Edge
      <4>1 IsWay(p, best[p]) BY <3>2 DEF Attained
      <4>2 IsWay(q, best[p] + Cost[<<p, q>>]) BY <4>1, <3>3, <3>7, Longer
      <4> QED BY <4>2, <3>7 DEF Through
    <3> QED BY <3>3, <3>4, <3>5, <3>6, <3>7
  <2> QED BY <2>1, <2>2
<1>3 Spec => []Inv BY Invariant
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
