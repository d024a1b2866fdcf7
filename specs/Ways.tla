-------------------------------- MODULE Ways --------------------------------
(***************************************************************************)
(* Any graph as a terrain, and the ways through it, for the proofs about   *)
(* searches.                                                               *)
(***************************************************************************)
EXTENDS Integers, TLAPS, NaturalsInduction

CONSTANTS Node, Edge, Cost, orig
ASSUMPTION Terrain == /\ orig \in Node
                      /\ Edge \subseteq Node \X Node
                      /\ Cost \in [Edge -> Nat]

\* A way of n movements, and what the first so many of them cost together
Way(f, c, n) == /\ f \in [0..n -> Node] /\ c \in [0..n -> Nat]
                /\ f[0] = orig /\ c[0] = 0
                /\ \A i \in 1..n : /\ <<f[i - 1], f[i]>> \in Edge
                                   /\ c[i] = c[i - 1] + Cost[<<f[i - 1], f[i]>>]

\* There is a way to q that costs v
IsWay(q, v) == \E n \in Nat : \E f, c : Way(f, c, n) /\ f[n] = q /\ c[n] = v

LEMMA Longer == ASSUME NEW p \in Node, NEW q \in Node, NEW v, IsWay(p, v), <<p, q>> \in Edge
                PROVE IsWay(q, v + Cost[<<p, q>>])
<1>0 PICK n \in Nat : \E f, c : Way(f, c, n) /\ f[n] = p /\ c[n] = v BY DEF IsWay
<1>1 PICK f, c : Way(f, c, n) /\ f[n] = p /\ c[n] = v BY <1>0
<1> DEFINE m == n + 1
           g == [i \in 0..m |-> IF i = m THEN q ELSE f[i]]
           e == [i \in 0..m |-> IF i = m THEN v + Cost[<<p, q>>] ELSE c[i]]
<1>2 m \in Nat /\ \A i \in 0..m : i = m \/ i \in 0..n OBVIOUS
<1>3 n \in 0..n /\ v \in Nat BY <1>1 DEF Way
<1>4 Cost[<<p, q>>] \in Nat BY Terrain
<1>5 g \in [0..m -> Node] /\ e \in [0..m -> Nat] BY <1>1, <1>2, <1>3, <1>4 DEF Way
<1>6 0 \in 0..m /\ 0 # m BY <1>2
<1>7 g[0] = orig /\ e[0] = 0 BY <1>1, <1>6 DEF Way
<1>8 ASSUME NEW i \in 1..m
     PROVE <<g[i - 1], g[i]>> \in Edge /\ e[i] = e[i - 1] + Cost[<<g[i - 1], g[i]>>]
  <2>1 i \in 0..m /\ i - 1 \in 0..m /\ i - 1 # m OBVIOUS
  <2>2 CASE i = m
    <3>1 i - 1 = n BY <2>2
    <3>2 g[i - 1] = p /\ e[i - 1] = v BY <1>1, <2>1, <3>1
    <3>3 g[i] = q /\ e[i] = v + Cost[<<p, q>>] BY <2>1, <2>2
    <3> QED BY <3>2, <3>3
  <2>3 CASE i # m
    <3>1 i \in 1..n BY <2>3
    <3>2 g[i] = f[i] /\ e[i] = c[i] /\ g[i - 1] = f[i - 1] /\ e[i - 1] = c[i - 1] BY <2>1, <2>3
    <3> QED BY <1>1, <3>1, <3>2 DEF Way
  <2> QED BY <2>2, <2>3
<1>9 Way(g, e, m)
  <2> HIDE DEF g, e, m
  <2> QED BY <1>5, <1>7, <1>8 DEF Way
<1>10 m \in 0..m /\ g[m] = q /\ e[m] = v + Cost[<<p, q>>] BY <1>2
<1> HIDE DEF g, e, m
<1> QED BY <1>2, <1>9, <1>10 DEF IsWay
=============================================================================
