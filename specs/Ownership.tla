------------------------------ MODULE Ownership ------------------------------
(***************************************************************************)
(* Who owns which value (property C33).  Values are tokens, each made      *)
(* once and dropped once.  `cells` and `copy` are two grids (<<>> while    *)
(* there is none), `hand` what the user holds, `live` what was made and    *)
(* not dropped yet.                                                        *)
(*                                                                         *)
(* Each action says where the values of the user go.  The library may make *)
(* values on its own, if it drops those that it places nowhere: Settle.    *)
(***************************************************************************)
EXTENDS Symmetry, FiniteSets, TLC
VARIABLES cells, copy, hand, live
owvars == <<w, h, cells, copy, hand, live>>

Held(seq) == { seq[i] : i \in DOMAIN seq }
Placed == Held(cells) \cup Held(copy) \cup hand
\* No value is in two places
Apart == Cardinality(Placed) = Len(cells) + Len(copy) + Cardinality(hand)
\* Everything alive is somewhere, and only that
Owned == Apart /\ live = Placed

(* The births and the deaths of a step: `made` by the user, `born` pairs    *)
(* <<value, origin>> inside of the library, where origin 0 is the default   *)
(* and any other the value that was cloned; `dropped` lists the deaths.     *)
Origins(born) == { b[1] : b \in Held(born) }
Settle(made, born, dropped) ==
    \E ids \in {TLCEval(Held(made) \cup Origins(born))} :
      /\ Cardinality(ids) = Len(made) + Len(born)
      /\ ids \cap live = {}
      /\ Cardinality(Held(dropped)) = Len(dropped)
      /\ Held(dropped) \subseteq live \cup ids
      /\ live' = (live \cup ids) \ Held(dropped)
      /\ live' = Placed'
      /\ Apart'
Defaults(born) == { b[1] : b \in { c \in Held(born) : c[2] = 0 } }
ClonesOf(born, t) == { b[1] : b \in { c \in Held(born) : c[2] = t } }

Exists(seq) == seq # <<>>
Full(seq) == Len(seq) = w * h
Grid(new, inhand) == cells' = new /\ hand' = inhand /\ UNCHANGED <<w, h, copy>>
Stays == UNCHANGED <<w, h, cells, copy, hand>>

(* `risky` tells that a callback was made to panic at some time: the step  *)
(* may have no effect then, other than what panics leave by their meaning. *)
\* A new grid takes the place of the old one
Default(new, born, r, risky) ==
    \/ r = <<"ok">> /\ Full(new) /\ Held(new) \subseteq Defaults(born) /\ Grid(new, hand)
    \/ r = <<"panic">> /\ risky /\ Stays
Collect(ts, r, risky) ==
    \/ r = <<"ok">> /\ Full(ts) /\ Grid(ts, hand)
    \/ r = <<"panic">> /\ (risky \/ ~Full(ts)) /\ Stays
\* Lists of lists, as in GridStore
ItemAt(lists, p) == lists[Row(p) + 1][Col(p) + 1]
HasItem(lists, p) == Row(p) < Len(lists) /\ Col(p) < Len(lists[Row(p) + 1])
Fit(lists) == Len(lists) <= h /\ \A y \in DOMAIN lists : Len(lists[y]) <= w
FromLists(lists, new, born, r, risky) ==
    \/ /\ r = <<"ok">> /\ Fit(lists) /\ Full(new)
       /\ \A p \in Cells : IF HasItem(lists, p) THEN new[p + 1] = ItemAt(lists, p)
                                                ELSE new[p + 1] \in Defaults(born)
       /\ Grid(new, hand)
    \/ r = <<"err", "OutOfBounds">> /\ ~Fit(lists) /\ Stays
    \/ r = <<"panic">> /\ risky /\ Stays
\* The lists that come before the first misfit and those of its items that fit
Misfits(lists) == { y \in DOMAIN lists : Len(lists[y]) > 0 /\ (y > h \/ Len(lists[y]) > w) }
Last(lists) == IF Misfits(lists) = {} THEN Len(lists)
               ELSE CHOOSE y \in Misfits(lists) : \A z \in Misfits(lists) : y <= z
ExtendLists(lists, r) ==
    /\ Exists(cells)
    /\ r = IF Misfits(lists) = {} THEN <<"ok">> ELSE <<"err", "OutOfBounds">>
    /\ \E end \in {Last(lists)} :
         Grid([i \in 1..(w * h) |-> IF HasItem(lists, i - 1) /\ Row(i - 1) < end
                                    THEN ItemAt(lists, i - 1) ELSE cells[i]], hand)

\* Writing drops what was there, replacing and taking hand it out
Write(p, t) == Exists(cells) /\ p \in Cells /\ Grid([cells EXCEPT ![p + 1] = t], hand)
Replace(p, t) ==
    /\ Exists(cells) /\ p \in Cells
    /\ Grid([cells EXCEPT ![p + 1] = t], hand \cup {cells[p + 1]})
TakeOut(p, new, born) ==
    /\ Exists(cells) /\ p \in Cells /\ Full(new) /\ new[p + 1] \in Defaults(born)
    /\ new = [cells EXCEPT ![p + 1] = new[p + 1]]
    /\ Grid(new, hand \cup {cells[p + 1]})
RECURSIVE Store(_, _, _)
Store(pairs, i, c) ==
    IF i > Len(pairs) THEN c ELSE Store(pairs, i + 1, [c EXCEPT ![pairs[i][1] + 1] = pairs[i][2]])
\* All the pairs; or some of the first `n`, after which the source panics
Extend(pairs, n, r) ==
    /\ Exists(cells)
    /\ \/ n = Len(pairs) /\ r = <<"ok">> /\ Grid(Store(pairs, 1, cells), hand)
       \/ /\ n < Len(pairs) /\ r = <<"panic">>
          /\ \E k \in 0..n : Grid(Store(SubSeq(pairs, 1, k), 1, cells), hand)
Transform(sym) ==
    /\ Exists(cells) /\ sym \in Symmetries
    /\ Grid([i \in 1..(w * h) |-> cells[Image(Inverse(sym), i - 1) + 1]], hand)

Clone(new, born, r, risky) ==
    /\ Exists(cells)
    /\ \/ /\ r = <<"ok">> /\ Full(new)
          /\ \A i \in 1..(w * h) : new[i] \in ClonesOf(born, cells[i])
          /\ copy' = new /\ UNCHANGED <<w, h, cells, hand>>
       \/ r = <<"panic">> /\ risky /\ Stays
SwapGrids == cells' = copy /\ copy' = cells /\ UNCHANGED <<w, h, hand>>

\* The end of a grid: some values are taken from its ends, others are dropped
Consume(front, back) ==
    /\ Exists(cells) /\ front + back <= w * h
    /\ Grid(<<>>, hand \cup Held(SubSeq(cells, 1, front))
                       \cup Held(SubSeq(cells, w * h - back + 1, w * h)))
DropGrid == Exists(cells) /\ Grid(<<>>, hand)
DropCopy == Exists(copy) /\ copy' = <<>> /\ UNCHANGED <<w, h, cells, hand>>
Release(ts) == Held(ts) \subseteq hand /\ Grid(cells, hand \ Held(ts))
=============================================================================
