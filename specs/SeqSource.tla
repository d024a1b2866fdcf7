------------------------------ MODULE SeqSource ------------------------------
(***************************************************************************)
(* What any double-ended iterator is: a sequence consumed from its ends.   *)
(* `rem` is what is left, `out` the last answer: <<>> or <<item>>.         *)
(* The iterators of the library are specified by their own modules, close  *)
(* to how they work; model checking shows that each refines this one.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Initial    \* the sequences an iterator may start with
VARIABLES rem, out

Init == rem \in Initial /\ out = <<>>

Front ==
    \/ /\ rem # <<>>
       /\ out' = <<Head(rem)>> /\ rem' = Tail(rem)
    \/ /\ rem = <<>>
       /\ out' = <<>> /\ UNCHANGED rem
Back ==
    \/ /\ rem # <<>>
       /\ out' = <<rem[Len(rem)]>> /\ rem' = SubSeq(rem, 1, Len(rem) - 1)
    \/ /\ rem = <<>>
       /\ out' = <<>> /\ UNCHANGED rem

\* What skips and bulk consumption mean: so many single steps
FrontNth(n) ==
    IF n < Len(rem) THEN out' = <<rem[n + 1]>> /\ rem' = SubSeq(rem, n + 2, Len(rem))
    ELSE out' = <<>> /\ rem' = <<>>
BackNth(n) ==
    IF n < Len(rem) THEN out' = <<rem[Len(rem) - n]>> /\ rem' = SubSeq(rem, 1, Len(rem) - n - 1)
    ELSE out' = <<>> /\ rem' = <<>>
All(items) == items = rem /\ rem' = <<>> /\ out' = <<>>
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
AllBack(items) == items = Reversed(rem) /\ rem' = <<>> /\ out' = <<>>
Count(n) == n = Len(rem) /\ rem' = <<>> /\ out' = <<>>
LastOne(r) == /\ r = IF rem = <<>> THEN <<>> ELSE <<rem[Len(rem)]>>
              /\ rem' = <<>> /\ out' = r
Skip == \E n \in 0..(Len(rem) + 1) : FrontNth(n) \/ BackNth(n)
Bulk == \/ All(rem) \/ AllBack(Reversed(rem)) \/ Count(Len(rem))
        \/ \E r \in {<<>>, IF rem = <<>> THEN <<>> ELSE <<rem[Len(rem)]>>} : LastOne(r)
Next == Front \/ Back \/ Skip \/ Bulk
Spec == Init /\ [][Next]_<<rem, out>>
=============================================================================
