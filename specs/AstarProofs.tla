----------------------------- MODULE AstarProofs -----------------------------
(***************************************************************************)
(* Why the A* search is right, for terrains of every size and shape and    *)
(* every estimate that is never too high: the steps of module AstarHeap,   *)
(* with any graph as terrain.  A cell is open while the heap has an entry  *)
(* of it that isn't stale; it may be opened again, since the estimate need *)
(* not be consistent.                                                      *)
(***************************************************************************)
EXTENDS Ways

CONSTANTS Estimate, target
\* Never higher than what any way from p to the target costs from there on
ASSUMPTION Guess == target \in Node /\ Estimate \in [Node -> Nat] /\ Estimate[target] = 0
Admissible ==
    \A n \in Nat : \A f, c : Way(f, c, n) /\ f[n] = target =>
        \A i \in 0..n : c[i] + Estimate[f[i]] <= c[n]

\* This follows if no movement brings the target nearer than it costs
Consistent == \A p, q \in Node : <<p, q>> \in Edge => Estimate[p] <= Cost[<<p, q>>] + Estimate[q]
THEOREM Never == Consistent => Admissible
<1> SUFFICES ASSUME Consistent, NEW n \in Nat, NEW f, NEW c, Way(f, c, n), f[n] = target, NEW k \in 0..n
    PROVE c[k] + Estimate[f[k]] <= c[n]
  BY DEF Admissible
<1> DEFINE P(i) == i <= n => c[n - i] + Estimate[f[n - i]] <= c[n]
<1>1 P(0)
  <2>1 n - 0 = n /\ n \in 0..n OBVIOUS
  <2>2 c[n] \in Nat /\ Estimate[f[n]] = 0 BY <2>1, Guess DEF Way
  <2> QED BY <2>1, <2>2
<1>2 ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
  <2> SUFFICES ASSUME i + 1 <= n PROVE c[n - (i + 1)] + Estimate[f[n - (i + 1)]] <= c[n]
    OBVIOUS
  <2> DEFINE j == n - i
  <2>1 j \in 1..n /\ j \in 0..n /\ j - 1 \in 0..n /\ n - (i + 1) = j - 1 OBVIOUS
  <2>2 c[j] + Estimate[f[j]] <= c[n] BY <1>2
  <2> HIDE DEF j
  <2>3 <<f[j - 1], f[j]>> \in Edge /\ c[j] = c[j - 1] + Cost[<<f[j - 1], f[j]>>] BY <2>1 DEF Way
  <2>4 f[j - 1] \in Node /\ f[j] \in Node /\ c[j - 1] \in Nat /\ c[j] \in Nat /\ c[n] \in Nat
    BY <2>1 DEF Way
  <2>5 Estimate[f[j - 1]] <= Cost[<<f[j - 1], f[j]>>] + Estimate[f[j]] BY <2>3, <2>4 DEF Consistent
  <2>6 Estimate[f[j - 1]] \in Nat /\ Estimate[f[j]] \in Nat /\ Cost[<<f[j - 1], f[j]>>] \in Nat
    BY <2>3, <2>4, Guess, Terrain
  <2>7 c[j - 1] + Estimate[f[j - 1]] <= c[n] BY <2>2, <2>3, <2>4, <2>5, <2>6
  <2> QED BY <2>1, <2>7
<1>3 \A i \in Nat : P(i)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1>4 n - k \in Nat /\ n - k <= n /\ n - (n - k) = k OBVIOUS
<1>5 P(n - k) BY <1>3, <1>4
<1> QED BY <1>4, <1>5

VARIABLES known, open, cost, found
vars == <<known, open, cost, found>>
Total(p) == cost[p] + Estimate[p]
Through(p, q) == cost[p] + Cost[<<p, q>>]
Improved(p, q) == <<p, q>> \in Edge /\ (q \notin known \/ Through(p, q) < cost[q])

Init == /\ known = {orig} /\ open = {orig}
        /\ cost \in [Node -> Nat] /\ cost[orig] = 0
        /\ found = FALSE
Visit(p) ==
    /\ ~found
    /\ p \in open /\ \A q \in open : Total(p) <= Total(q)
    /\ known' = known \cup { q \in Node : Improved(p, q) }
    /\ open' = (open \ {p}) \cup { q \in Node : Improved(p, q) }
    /\ cost' = [q \in Node |-> IF Improved(p, q) THEN Through(p, q) ELSE cost[q]]
    /\ found' = (p = target)
Next == \E p \in Node : Visit(p)
Spec == Init /\ [][Next]_vars

TypeOK == /\ open \subseteq known /\ known \subseteq Node
          /\ orig \in known
          /\ cost \in [Node -> Nat] /\ found \in BOOLEAN
\* Cells that are not open have been looked around
Relaxed == \A p \in known \ open, q \in Node :
    <<p, q>> \in Edge => q \in known /\ cost[q] <= Through(p, q)
Origin == cost[orig] = 0
Inv == TypeOK /\ Relaxed /\ Origin

THEOREM Invariant == Spec => []Inv
<1>1 Init => Inv
  BY Terrain DEF Init, Inv, TypeOK, Relaxed, Origin
<1>2 Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1 CASE UNCHANGED vars
    BY <2>1 DEF Inv, TypeOK, Relaxed, Origin, vars, Through
  <2>2 CASE Next
    <3>1 PICK p \in Node : Visit(p) BY <2>2 DEF Next
    <3>2 p \in open /\ p \in known BY <3>1 DEF Visit, Inv, TypeOK
    <3>3 known' = known \cup { q \in Node : Improved(p, q) } BY <3>1 DEF Visit
    <3>4 open' = (open \ {p}) \cup { q \in Node : Improved(p, q) } BY <3>1 DEF Visit
    <3>5 cost' = [q \in Node |-> IF Improved(p, q) THEN Through(p, q) ELSE cost[q]]
      BY <3>1 DEF Visit
    <3>6 \A q \in Node : <<p, q>> \in Edge => Cost[<<p, q>>] \in Nat BY Terrain
    <3>7 \A q \in Node : cost[q] \in Nat BY DEF Inv, TypeOK
    <3>8 \A q \in Node : cost'[q] \in Nat BY <3>5, <3>6, <3>7 DEF Improved, Through
    <3>9 TypeOK'
      <4>1 cost' \in [Node -> Nat] BY <3>5, <3>8
      <4>2 found' \in BOOLEAN BY <3>1 DEF Visit
      <4> QED BY <4>1, <4>2, <3>2, <3>3, <3>4 DEF Inv, TypeOK
    \* What is known only gets less
    <3>10 \A q \in known : q \in known' /\ cost'[q] <= cost[q]
      BY <3>3, <3>5, <3>6, <3>7 DEF Improved, Through, Inv, TypeOK
    \* and where it stays the same, no more open
    <3>11 \A q \in Node : q \in known' /\ q \notin open' => cost'[q] = cost[q] /\ (q = p \/ q \in known \ open)
      BY <3>3, <3>4, <3>5
    <3>12 Relaxed'
      <4> SUFFICES ASSUME NEW s \in known', s \notin open', NEW q \in Node, <<s, q>> \in Edge
          PROVE q \in known' /\ cost'[q] <= cost'[s] + Cost[<<s, q>>]
        BY DEF Relaxed, Through
      <4>0 s \in Node /\ Cost[<<s, q>>] \in Nat BY Terrain
      <4>1 cost'[s] = cost[s] /\ (s = p \/ s \in known \ open) BY <3>11, <4>0
      <4>2 CASE s = p
        <5>1 CASE Improved(p, q)
          <6>1 cost'[q] = Through(p, q) /\ q \in known' BY <3>3, <3>5, <5>1
          <6> QED BY <6>1, <4>0, <4>1, <4>2, <3>7 DEF Through
        <5>2 CASE ~Improved(p, q)
          <6>1 q \in known /\ ~(Through(p, q) < cost[q]) BY <5>2, <4>2 DEF Improved
          <6>2 cost'[q] = cost[q] /\ q \in known' BY <5>2, <6>1, <3>3, <3>5
          <6> QED BY <6>1, <6>2, <4>0, <4>1, <4>2, <3>7 DEF Through
        <5> QED BY <5>1, <5>2
      <4>3 CASE s \in known \ open
        <5>1 q \in known /\ cost[q] <= cost[s] + Cost[<<s, q>>] BY <4>3 DEF Inv, Relaxed, Through
        <5>2 q \in known' /\ cost'[q] <= cost[q] BY <5>1, <3>10
        <5> QED BY <5>1, <5>2, <4>0, <4>1, <3>7, <3>8
      <4> QED BY <4>1, <4>2, <4>3
    <3>13 Origin'
      BY <3>2, <3>5, <3>6, <3>7, <3>8, <3>10 DEF Inv, TypeOK, Origin
    <3> QED BY <3>9, <3>12, <3>13 DEF Inv
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* The target comes up at the cost of a cheapest way to it
THEOREM Optimal == ASSUME Inv, Admissible, NEW n \in Nat, NEW f, NEW c, Way(f, c, n), f[n] = target,
                          target \in open, \A q \in open : Total(target) <= Total(q)
                   PROVE cost[target] <= c[n]
<1> DEFINE Out == \E q \in open : Total(q) <= c[n]
           P(i) == i <= n => ((f[i] \in known /\ cost[f[i]] <= c[i]) \/ Out)
<1>0 \A q \in Node : cost[q] \in Nat BY DEF Inv, TypeOK
<1>1 P(0)
  <2>1 f[0] = orig /\ c[0] = 0 BY DEF Way
  <2>2 orig \in known /\ cost[orig] = 0 BY DEF Inv, TypeOK, Origin
  <2> QED BY <2>1, <2>2
<1>n n \in 0..n /\ f[n] \in Node /\ c[n] \in Nat BY DEF Way
<1>2 ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
  <2> SUFFICES ASSUME i + 1 <= n, ~Out PROVE f[i + 1] \in known /\ cost[f[i + 1]] <= c[i + 1]
    OBVIOUS
  <2>1 i \in 0..n /\ i + 1 \in 0..n /\ i + 1 \in 1..n /\ (i + 1) - 1 = i OBVIOUS
  <2>2 /\ <<f[i], f[i + 1]>> \in Edge
       /\ c[i + 1] = c[i] + Cost[<<f[i], f[i + 1]>>]
    BY <2>1 DEF Way
  <2>3 f[i] \in Node /\ f[i + 1] \in Node /\ c[i] \in Nat /\ c[i + 1] \in Nat BY <2>1 DEF Way
  <2>4 Cost[<<f[i], f[i + 1]>>] \in Nat BY <2>2, Terrain
  <2>5 f[i] \in known /\ cost[f[i]] <= c[i] BY <1>2, <2>1
  <2>6 f[i] \notin open
    <3> SUFFICES ASSUME f[i] \in open PROVE FALSE OBVIOUS
    <3>1 c[i] + Estimate[f[i]] <= c[n] BY <2>1 DEF Admissible
    <3>2 cost[f[i]] \in Nat /\ Estimate[f[i]] \in Nat BY <1>0, <2>3, Guess
    <3>3 Total(f[i]) <= c[n] BY <2>3, <2>5, <3>1, <3>2, <1>n DEF Total
    <3> QED BY <3>3
  <2>7 f[i + 1] \in known /\ cost[f[i + 1]] <= cost[f[i]] + Cost[<<f[i], f[i + 1]>>]
    BY <2>2, <2>3, <2>5, <2>6 DEF Inv, Relaxed, Through
  <2>8 cost[f[i]] \in Nat /\ cost[f[i + 1]] \in Nat BY <1>0, <2>3
  <2> QED BY <2>2, <2>3, <2>4, <2>5, <2>7, <2>8
<1>3 \A i \in Nat : P(i)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1>4 (f[n] \in known /\ cost[f[n]] <= c[n]) \/ Out BY <1>3
<1>5 Total(target) = cost[target] BY <1>0, Guess DEF Total
<1>6 CASE Out
  <2>1 PICK q \in open : Total(q) <= c[n] BY <1>6
  <2>2 cost[target] <= Total(q) BY <1>5, <2>1
  <2>3 q \in Node BY DEF Inv, TypeOK
  <2>4 Total(q) \in Nat BY <1>0, <2>3, Guess DEF Total
  <2>5 cost[target] \in Nat BY <1>0, Guess
  <2> QED BY <2>1, <2>2, <2>4, <2>5, <1>n
<1> QED BY <1>4, <1>6

\* ... and if nothing is open any more, every cell with a way was found
THEOREM Complete == ASSUME Inv, open = {}, NEW n \in Nat, NEW f, NEW c, Way(f, c, n)
                    PROVE f[n] \in known
<1> DEFINE P(i) == i <= n => f[i] \in known
<1>1 P(0) BY DEF Way, Inv, TypeOK
<1>2 ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
  <2> SUFFICES ASSUME i + 1 <= n PROVE f[i + 1] \in known OBVIOUS
  <2>1 i \in 0..n /\ i + 1 \in 0..n /\ i + 1 \in 1..n /\ (i + 1) - 1 = i OBVIOUS
  <2>2 <<f[i], f[i + 1]>> \in Edge /\ f[i + 1] \in Node BY <2>1 DEF Way
  <2>3 f[i] \in known BY <1>2, <2>1
  <2> QED BY <2>2, <2>3 DEF Inv, Relaxed
<1>3 \A i \in Nat : P(i)
  <2> HIDE DEF P
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1> QED BY <1>3

\* What is known of a cell is the cost of one of its ways
Attained == \A q \in known : IsWay(q, cost[q])
THEOREM Sound == Spec => []Attained
<1>1 Init => Attained
  <2> SUFFICES ASSUME Init PROVE IsWay(orig, 0) BY DEF Init, Attained
  <2> DEFINE f == [i \in 0..0 |-> orig]
             c == [i \in 0..0 |-> 0]
  <2>1 Way(f, c, 0) BY Terrain DEF Way
  <2>2 0 \in Nat /\ f[0] = orig /\ c[0] = 0 OBVIOUS
  <2> HIDE DEF f, c
  <2> QED BY <2>1, <2>2 DEF IsWay
<1>2 Inv /\ Attained /\ [Next]_vars => Attained'
  <2> SUFFICES ASSUME Inv, Attained, [Next]_vars PROVE Attained' OBVIOUS
  <2>1 CASE UNCHANGED vars BY <2>1 DEF Attained, vars
  <2>2 CASE Next
    <3>1 PICK p \in Node : Visit(p) BY <2>2 DEF Next
    <3>2 p \in known BY <3>1 DEF Visit, Inv, TypeOK
    <3> SUFFICES ASSUME NEW q \in known' PROVE IsWay(q, cost'[q]) BY DEF Attained
    <3>3 q \in Node /\ (q \in known \/ Improved(p, q)) BY <3>1 DEF Visit, Inv, TypeOK
    <3>4 cost'[q] = IF Improved(p, q) THEN Through(p, q) ELSE cost[q] BY <3>1, <3>3 DEF Visit
    <3>5 CASE ~Improved(p, q) BY <3>3, <3>4, <3>5 DEF Attained
    <3>6 CASE Improved(p, q)
      <4>1 <<p, q>> \in Edge BY <3>6 DEF Improved
      <4>2 IsWay(p, cost[p]) BY <3>2 DEF Attained
      <4>3 IsWay(q, cost[p] + Cost[<<p, q>>]) BY <4>1, <4>2, <3>3, Longer
      <4> QED BY <4>3, <3>4, <3>6 DEF Through
    <3> QED BY <3>5, <3>6
  <2> QED BY <2>1, <2>2
<1>3 Spec => []Inv BY Invariant
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
