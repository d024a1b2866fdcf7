------------------------------ MODULE RangeIter ------------------------------
(***************************************************************************)
(* The iterator over a rectangle of positions in reading order (properties *)
(* C06, C05 for single lines and columns, C27).  `cur` is <<>> or <<next   *)
(* position>>.                                                             *)
(***************************************************************************)
EXTENDS BigInt
VARIABLES left, top, right, bottom, cur, out,
          saved     \* a copy: <<>> or <<its cur>>
rect == <<left, top, right, bottom>>
ritvars == <<rect, cur, out, saved>>

Start == cur = << <<left, top>> >> /\ out = <<>> /\ saved = <<>>
After(p) == IF BigLt(p[1], right) THEN << <<BigInc(p[1]), p[2]>> >>
            ELSE IF BigLt(p[2], bottom) THEN << <<left, BigInc(p[2])>> >>
            ELSE <<>>
Front == /\ out' = cur
         /\ cur' = IF cur = <<>> THEN <<>> ELSE After(cur[1])
         /\ UNCHANGED <<rect, saved>>
InRect(p) == BigIn(p[1], left, right) /\ BigIn(p[2], top, bottom)
Rank(p) == BigAdd(BigMul(BigSub(p[2], top), BigInc(BigSub(right, left))), BigSub(p[1], left))
Left == IF cur = <<>> THEN BigZero
        ELSE BigInc(BigSub(Rank(<<right, bottom>>), Rank(cur[1])))
FrontNth(n, r) ==
    /\ out' = r /\ UNCHANGED <<rect, saved>>
    /\ IF BigLt(n, Left)
       THEN /\ Len(r) = 1 /\ InRect(r[1])
            /\ Rank(r[1]) = BigAdd(Rank(cur[1]), n)
            /\ cur' = After(r[1])
       ELSE r = <<>> /\ cur' = <<>>
All(items) ==
    /\ BigOf(Len(items)) = Left
    /\ \A i \in DOMAIN items : InRect(items[i]) /\ Rank(items[i]) = BigAdd(Rank(cur[1]), BigOf(i - 1))
    /\ cur' = <<>> /\ out' = <<>> /\ UNCHANGED <<rect, saved>>
Count(n) == n = Left /\ cur' = <<>> /\ out' = <<>> /\ UNCHANGED <<rect, saved>>
LastOne(r) == /\ r = IF cur = <<>> THEN <<>> ELSE << <<right, bottom>> >>
              /\ cur' = <<>> /\ out' = r /\ UNCHANGED <<rect, saved>>
Save == saved' = <<cur>> /\ UNCHANGED <<rect, cur, out>>
Swap == saved # <<>> /\ saved' = <<cur>> /\ cur' = saved[1] /\ UNCHANGED <<rect, out>>
HintOK(low, high) ==
    /\ BigLe(low, Left)
    /\ high # <<>> => BigLe(Left, high[1])
Sane == cur # <<>> => InRect(cur[1])
=============================================================================
