------------------------------- MODULE DeIter -------------------------------
(***************************************************************************)
(* The double-ended iterator over an interval of integers (property C02):  *)
(* two cursors, `start` and `end`, each <<>> or <<value>>, which are both  *)
(* dropped when they meet.                                                 *)
(***************************************************************************)
EXTENDS BigInt

VARIABLES start, end,
          out           \* last answer: <<>> or <<value>>
itvars == <<start, end, out>>

NewIter(a, b) == start = <<a>> /\ end = <<b>> /\ out = <<>>

Drop == start' = <<>> /\ end' = <<>>

Front ==
    /\ out' = start
    /\ IF start = end THEN Drop
       ELSE start' = <<BigInc(start[1])>> /\ UNCHANGED end
Back ==
    /\ out' = end
    /\ IF start = end THEN Drop
       ELSE end' = <<BigDec(end[1])>> /\ UNCHANGED start

\* Number of values left
Left == IF start = <<>> THEN BigZero ELSE BigInc(BigSub(end[1], start[1]))

\* Skip n values and take one (nth, nth_back)
FrontNth(n) ==
    IF BigLt(n, Left)
    THEN \E v \in {BigAdd(start[1], n)} :
            /\ out' = <<v>>
            /\ IF <<v>> = end THEN Drop ELSE start' = <<BigInc(v)>> /\ UNCHANGED end
    ELSE out' = <<>> /\ Drop
BackNth(n) ==
    IF BigLt(n, Left)
    THEN \E v \in {BigSub(end[1], n)} :
            /\ out' = <<v>>
            /\ IF <<v>> = start THEN Drop ELSE end' = <<BigDec(v)>> /\ UNCHANGED start
    ELSE out' = <<>> /\ Drop
\* Take everything that is left, in the order given: upwards or downwards
All(items, up) ==
    /\ BigOf(Len(items)) = Left
    /\ \A i \in DOMAIN items :
          items[i] = IF up THEN BigAdd(start[1], BigOf(i - 1)) ELSE BigSub(end[1], BigOf(i - 1))
    /\ Drop /\ out' = <<>>
Count(n) == n = Left /\ Drop /\ out' = <<>>
LastOne(r) == r = end /\ Drop /\ out' = r

\* A size hint <<low, high>>, high being <<>> or <<number>>, is right when it
\* brackets the number of values left
HintOK(low, high) ==
    /\ BigLe(low, Left)
    /\ high # <<>> => BigLe(Left, high[1])

Sane == /\ (start = <<>>) = (end = <<>>)
        /\ start # <<>> => BigLe(start[1], end[1])
=============================================================================
