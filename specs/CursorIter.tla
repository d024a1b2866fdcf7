------------------------------ MODULE CursorIter ------------------------------
(***************************************************************************)
(* The iterator over all positions of a grid (properties C05, C27): two    *)
(* cursors, each <<>> or <<position>>, that walk the lines (`across`) or   *)
(* the columns of the grid towards each other and are both dropped when    *)
(* they meet.  The iterator may be copied: `saved` is a copy, which goes   *)
(* its own way.                                                            *)
(***************************************************************************)
EXTENDS BigInt

VARIABLES xlo, xhi, ylo, yhi,  \* coordinates of the grid
          across,              \* reading order, or column by column
          cur, end,
          saved,
          out                  \* last answer: <<>> or <<position>>
bounds == <<xlo, xhi, ylo, yhi, across>>
cursors == <<cur, end>>
citvars == <<bounds, cursors, saved, out>>

First == <<xlo, ylo>>
Last == <<xhi, yhi>>
IsPos(p) == BigIn(p[1], xlo, xhi) /\ BigIn(p[2], ylo, yhi)

(* Single steps in either order *)

NextH(p) == IF BigLt(p[1], xhi) THEN << <<BigInc(p[1]), p[2]>> >>
            ELSE IF BigLt(p[2], yhi) THEN << <<xlo, BigInc(p[2])>> >>
            ELSE <<>>
PrevH(p) == IF BigLt(xlo, p[1]) THEN << <<BigDec(p[1]), p[2]>> >>
            ELSE IF BigLt(ylo, p[2]) THEN << <<xhi, BigDec(p[2])>> >>
            ELSE <<>>
NextV(p) == IF BigLt(p[2], yhi) THEN << <<p[1], BigInc(p[2])>> >>
            ELSE IF BigLt(p[1], xhi) THEN << <<BigInc(p[1]), ylo>> >>
            ELSE <<>>
PrevV(p) == IF BigLt(ylo, p[2]) THEN << <<p[1], BigDec(p[2])>> >>
            ELSE IF BigLt(xlo, p[1]) THEN << <<BigDec(p[1]), yhi>> >>
            ELSE <<>>
Forth(p) == IF across THEN NextH(p) ELSE NextV(p)
Back1(p) == IF across THEN PrevH(p) ELSE PrevV(p)

(* The iterator *)

Start == cur = <<First>> /\ end = <<Last>> /\ saved = <<>> /\ out = <<>>
Drop == cur' = <<>> /\ end' = <<>>

Front ==
    /\ out' = cur
    /\ IF cur = end THEN Drop ELSE cur' = Forth(cur[1]) /\ UNCHANGED end
    /\ UNCHANGED <<bounds, saved>>
Back ==
    /\ out' = end
    /\ IF cur = end THEN Drop ELSE end' = Back1(end[1]) /\ UNCHANGED cur
    /\ UNCHANGED <<bounds, saved>>

\* Place of a position in the order
Rank(p) ==
    LET dx == BigSub(p[1], xlo)
        dy == BigSub(p[2], ylo)
        w == BigInc(BigSub(xhi, xlo))
        h == BigInc(BigSub(yhi, ylo))
    IN IF across THEN BigAdd(BigMul(dy, w), dx) ELSE BigAdd(BigMul(dx, h), dy)
Left == IF cur = <<>> THEN BigZero ELSE BigInc(BigSub(Rank(end[1]), Rank(cur[1])))

\* Skip n items and take one, from the front or from the back (nth, nth_back)
FrontNth(n, r) ==
    /\ out' = r
    /\ IF BigLt(n, Left)
       THEN /\ Len(r) = 1 /\ IsPos(r[1])
            /\ Rank(r[1]) = BigAdd(Rank(cur[1]), n)
            /\ IF r = end THEN Drop ELSE cur' = Forth(r[1]) /\ UNCHANGED end
       ELSE r = <<>> /\ Drop
    /\ UNCHANGED <<bounds, saved>>
BackNth(n, r) ==
    /\ out' = r
    /\ IF BigLt(n, Left)
       THEN /\ Len(r) = 1 /\ IsPos(r[1])
            /\ Rank(r[1]) = BigSub(Rank(end[1]), n)
            /\ IF r = cur THEN Drop ELSE end' = Back1(r[1]) /\ UNCHANGED cur
       ELSE r = <<>> /\ Drop
    /\ UNCHANGED <<bounds, saved>>
\* Consume everything that is left, in the order given
IsRun(items, from, dir) ==
    /\ \A i \in DOMAIN items : IsPos(items[i])
    /\ \A i \in DOMAIN items :
          Rank(items[i]) = IF dir = 1 THEN BigAdd(Rank(from), BigOf(i - 1))
                                      ELSE BigSub(Rank(from), BigOf(i - 1))
All(items, dir) ==
    /\ BigOf(Len(items)) = Left
    /\ items # <<>> => IsRun(items, IF dir = 1 THEN cur[1] ELSE end[1], dir)
    /\ Drop /\ out' = <<>> /\ UNCHANGED <<bounds, saved>>
Count(n) == n = Left /\ Drop /\ out' = <<>> /\ UNCHANGED <<bounds, saved>>

\* The copies
Save == saved' = cursors /\ UNCHANGED <<bounds, cursors, out>>
Swap == /\ saved # <<>> /\ saved' = cursors
        /\ cur' = saved[1] /\ end' = saved[2] /\ UNCHANGED <<bounds, out>>

\* Questions about single positions, which don't depend on the iterator
AskNext(order, p, r) ==
    /\ IsPos(p)
    /\ r = CASE order = "next" -> NextH(p) [] order = "prev" -> PrevH(p)
             [] order = "next_y" -> NextV(p) [] order = "prev_y" -> PrevV(p)
    /\ UNCHANGED citvars

\* A size hint <<low, high>>, high being <<>> or <<number>>
HintOK(low, high) ==
    /\ BigLe(low, Left)
    /\ high # <<>> => BigLe(Left, high[1])

Sane == /\ (cur = <<>>) = (end = <<>>)
        /\ cur # <<>> => BigLe(Rank(cur[1]), Rank(end[1]))
=============================================================================
