--------------------------- MODULE MCHintedSource ---------------------------
(***************************************************************************)
(* How the library says how many items are left: sources that know it,     *)
(* items of such sources put in other words (positions with values),       *)
(* items of such sources that are filtered (true positions), and sources   *)
(* that don't know (searches).  "fresh" always says what it had at first,  *)
(* as Dir::iter does: it does not bracket the number of items left.        *)
(***************************************************************************)
EXTENDS HintedSource
CONSTANTS Kinds, MaxLen
VARIABLES kind, items, first
vars == <<left, kind, items, first>>
\* Items that are TRUE are given, others are skipped by filters
Left(k, s) == IF k = "filtered" THEN Len(SelectSeq(s, LAMBDA b : b)) ELSE Len(s)
Init == /\ kind \in Kinds
        /\ \E n \in 0..MaxLen : items \in [1..n -> BOOLEAN]
        /\ first = Left(kind, items)
        /\ left = first
\* From either end
RECURSIVE DropFront(_), DropBack(_)
DropFront(s) == IF s = <<>> THEN s ELSE IF kind = "filtered" /\ ~Head(s) THEN DropFront(Tail(s)) ELSE Tail(s)
DropBack(s) == IF s = <<>> THEN s
               ELSE IF kind = "filtered" /\ ~s[Len(s)] THEN DropBack(SubSeq(s, 1, Len(s) - 1))
               ELSE SubSeq(s, 1, Len(s) - 1)
GiveFront == Give(1) /\ items' = DropFront(items) /\ UNCHANGED <<kind, first>>
GiveBack == Give(1) /\ items' = DropBack(items) /\ UNCHANGED <<kind, first>>
Next == GiveFront \/ GiveBack
Spec == Init /\ [][Next]_vars
Says == CASE kind = "exact" -> <<BigOf(Len(items)), <<BigOf(Len(items))>>>>
          [] kind = "filtered" -> <<BigZero, <<BigOf(Len(items))>>>>
          [] kind = "unknown" -> <<BigZero, <<>>>>
          [] kind = "fresh" -> <<BigOf(first), <<BigOf(first)>>>>
Knows == left = Left(kind, items)
Inv == Knows /\ Brackets(Says[1], Says[2], left)
=============================================================================
