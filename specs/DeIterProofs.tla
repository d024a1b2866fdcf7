---------------------------- MODULE DeIterProofs ----------------------------
(***************************************************************************)
(* What iterators from both ends give, in any order of calls and with any  *)
(* bounds: the steps of module DeIter, with plain numbers; proved with the *)
(* TLA+ proof system.                                                      *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS a, b
ASSUMPTION Bounds == a \in Int /\ b \in Int /\ a <= b

VARIABLES live, start, end,
          up, down            \* what was given from the front, from the back
vars == <<live, start, end, up, down>>

Init == live = TRUE /\ start = a /\ end = b /\ up = {} /\ down = {}
\* The n-th from the front (and none of those before)
Front(n) ==
    IF live /\ n < end - start + 1
    THEN /\ up' = up \cup {start + n} /\ UNCHANGED down
         /\ IF start + n = end THEN live' = FALSE /\ UNCHANGED <<start, end>>
            ELSE start' = start + n + 1 /\ UNCHANGED <<live, end>>
    ELSE live' = FALSE /\ UNCHANGED <<start, end, up, down>>
Back(n) ==
    IF live /\ n < end - start + 1
    THEN /\ down' = down \cup {end - n} /\ UNCHANGED up
         /\ IF end - n = start THEN live' = FALSE /\ UNCHANGED <<start, end>>
            ELSE end' = end - n - 1 /\ UNCHANGED <<live, start>>
    ELSE live' = FALSE /\ UNCHANGED <<start, end, up, down>>
Next == \E n \in Nat : Front(n) \/ Back(n)
Spec == Init /\ [][Next]_vars

Inv == /\ live \in BOOLEAN /\ start \in Int /\ end \in Int
       /\ up \subseteq a..b /\ down \subseteq a..b
       /\ up \cap down = {}
       /\ a <= start /\ end <= b
       /\ live => /\ start <= end
                  /\ \A v \in up : v < start
                  /\ \A v \in down : end < v
\* In bounds, nothing twice
THEOREM Safe == Spec => []Inv
<1>1 Init => Inv BY Bounds DEF Init, Inv
<1>2 Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2> USE Bounds DEF Inv
  <2>1 CASE UNCHANGED vars BY <2>1 DEF vars
  <2>2 ASSUME NEW n \in Nat, Front(n) PROVE Inv'
    <3>1 CASE ~(live /\ n < end - start + 1) BY <2>2, <3>1 DEF Front
    <3>2 CASE live /\ n < end - start + 1
      <4>1 start + n \in a..b /\ start + n \notin down /\ start + n <= end BY <3>2
      <4>2 up' = up \cup {start + n} /\ down' = down BY <2>2, <3>2 DEF Front
      <4>3 CASE start + n = end BY <2>2, <3>2, <4>1, <4>2, <4>3 DEF Front
      <4>4 CASE start + n # end
        <5>1 start' = start + n + 1 /\ live' = live /\ end' = end BY <2>2, <3>2, <4>4 DEF Front
        <5>2 \A v \in up' : v < start' BY <3>2, <4>2, <5>1
        <5> QED BY <3>2, <4>1, <4>2, <4>4, <5>1, <5>2
      <4> QED BY <4>3, <4>4
    <3> QED BY <3>1, <3>2
  <2>3 ASSUME NEW n \in Nat, Back(n) PROVE Inv'
    <3>1 CASE ~(live /\ n < end - start + 1) BY <2>3, <3>1 DEF Back
    <3>2 CASE live /\ n < end - start + 1
      <4>1 end - n \in a..b /\ end - n \notin up /\ end - n >= start BY <3>2
      <4>2 down' = down \cup {end - n} /\ up' = up BY <2>3, <3>2 DEF Back
      <4>3 CASE end - n = start BY <2>3, <3>2, <4>1, <4>2, <4>3 DEF Back
      <4>4 CASE end - n # start
        <5>1 end' = end - n - 1 /\ live' = live /\ start' = start BY <2>3, <3>2, <4>4 DEF Back
        <5>2 \A v \in down' : end' < v BY <3>2, <4>2, <5>1
        <5> QED BY <3>2, <4>1, <4>2, <4>4, <5>1, <5>2
      <4> QED BY <4>3, <4>4
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2, <2>3 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec

\* One by one, nothing is left out
NextOne == Front(0) \/ Back(0)
OneByOne == Init /\ [][NextOne]_vars
All == IF live THEN up \cup down = (a..b) \ (start..end) ELSE up \cup down = a..b
THEOREM Everything == OneByOne => []All
<1>1 Init => Inv /\ All BY Bounds DEF Init, Inv, All
<1>2 Inv /\ All /\ [NextOne]_vars => (Inv /\ All)'
  <2> SUFFICES ASSUME Inv, All, [NextOne]_vars PROVE Inv' /\ All' OBVIOUS
  <2> USE Bounds
  <2>1 CASE UNCHANGED vars BY <2>1 DEF vars, Inv, All
  <2>2 CASE Front(0)
    <3>1 CASE ~live BY <2>2, <3>1 DEF Front, Inv, All
    <3>2 CASE live
      <4>1 up' = up \cup {start} /\ down' = down BY <2>2, <3>2 DEF Front, Inv
      <4>2 CASE start = end
        <5>1 live' = FALSE /\ start' = start /\ end' = end BY <2>2, <3>2, <4>2 DEF Front, Inv
        <5>2 Inv' BY <3>2, <4>1, <4>2, <5>1 DEF Inv
        <5>3 start..end = {start} /\ start \in a..b BY <3>2, <4>2 DEF Inv
        <5>4 up \cup down = (a..b) \ {start} BY <3>2, <5>3 DEF All
        <5>5 up' \cup down' = a..b BY <4>1, <4>2, <5>3, <5>4
        <5> QED BY <5>1, <5>2, <5>5 DEF All
      <4>3 CASE start # end
        <5>1 start' = start + 1 /\ live' /\ end' = end BY <2>2, <3>2, <4>3 DEF Front, Inv
        <5>2 Inv' BY <3>2, <4>1, <4>3, <5>1 DEF Inv
        <5>3 All' BY <3>2, <4>1, <4>3, <5>1 DEF Inv, All
        <5> QED BY <5>2, <5>3
      <4> QED BY <4>2, <4>3
    <3> QED BY <3>1, <3>2
  <2>3 CASE Back(0)
    <3>1 CASE ~live BY <2>3, <3>1 DEF Back, Inv, All
    <3>2 CASE live
      <4>1 down' = down \cup {end} /\ up' = up BY <2>3, <3>2 DEF Back, Inv
      <4>2 CASE start = end
        <5>1 live' = FALSE /\ start' = start /\ end' = end BY <2>3, <3>2, <4>2 DEF Back, Inv
        <5>2 Inv' BY <3>2, <4>1, <4>2, <5>1 DEF Inv
        <5>3 start..end = {start} /\ start \in a..b BY <3>2, <4>2 DEF Inv
        <5>4 up \cup down = (a..b) \ {start} BY <3>2, <5>3 DEF All
        <5>5 up' \cup down' = a..b BY <4>1, <4>2, <5>3, <5>4
        <5> QED BY <5>1, <5>2, <5>5 DEF All
      <4>3 CASE start # end
        <5>1 end' = end - 1 /\ live' /\ start' = start BY <2>3, <3>2, <4>3 DEF Back, Inv
        <5>2 Inv' BY <3>2, <4>1, <4>3, <5>1 DEF Inv
        <5>3 All' BY <3>2, <4>1, <4>3, <5>1 DEF Inv, All
        <5> QED BY <5>2, <5>3
      <4> QED BY <4>2, <4>3
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2, <2>3 DEF NextOne
<1> QED BY <1>1, <1>2, PTL DEF OneByOne
=============================================================================
