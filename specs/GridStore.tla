------------------------------ MODULE GridStore ------------------------------
(***************************************************************************)
(* A grid of values (properties C13, C14, C15): `cells[p + 1]` is the      *)
(* value of cell p, whatever the way in which it is written or read.       *)
(* `saved` is a copy of the grid, or <<>>.                                 *)
(***************************************************************************)
EXTENDS Symmetry, FiniteSets, SequencesExt, TLC
VARIABLES cells, saved
gsvars == <<w, h, cells, saved>>
fixed == <<w, h>>

Same == UNCHANGED gsvars
Put(new) == cells' = new /\ UNCHANGED <<w, h, saved>>
Filled(v) == [i \in 1..(w * h) |-> v]

Repeat(v) == Put(Filled(v))
Write(p, v) == p \in Cells /\ Put([cells EXCEPT ![p + 1] = v])
Read(p, r) == p \in Cells /\ r = cells[p + 1] /\ Same
Line(y) == [i \in 1..w |-> cells[y * w + i]]
ReadLine(y, r) == r = Line(y) /\ Same
\* All cells in reading order
Dump(r) == r = cells /\ Same
\* All cells with their numbers
DumpPos(r) == r = [i \in 1..(w * h) |-> <<i - 1, cells[i]>>] /\ Same
Negate == Put([i \in 1..(w * h) |-> -cells[i]])

\* One after the other
Store(pairs, c) == FoldLeft(LAMBDA d, p : [d EXCEPT ![p[1] + 1] = p[2]], c, pairs)
Extend(pairs) == Put(Store(pairs, cells))

\* A sequence of all values
Collect(values, r) ==
    IF Len(values) = w * h THEN r = <<"ok">> /\ Put(values)
                           ELSE r = <<"panic">> /\ Same

(* Lists of lists: item x of list y belongs to (x, y). `n` is the number of *)
(* lists, and `lists` has those that are not empty, as <<y, items>>.       *)
HasPlace(x, y) == x < w /\ y < h
FitsIn(n, lists) == n <= h /\ \A i \in DOMAIN lists : Len(lists[i][2]) <= w
\* The items of each line of the grid
Rows(lists) ==
    TLCEval([y \in 0..(h - 1) |->
               LET ks == { k \in DOMAIN lists : lists[k][1] = y }
               IN IF ks = {} THEN <<>> ELSE lists[CHOOSE k \in ks : TRUE][2]])
FromLists(n, lists, r) ==
    IF FitsIn(n, lists)
    THEN \E rows \in {Rows(lists)} :
            /\ r = <<"ok">>
            /\ Put([i \in 1..(w * h) |->
                      IF Col(i - 1) < Len(rows[Row(i - 1)]) THEN rows[Row(i - 1)][Col(i - 1) + 1] ELSE 0])
    ELSE r = <<"err", "OutOfBounds">> /\ Same
(* The items are stored in their order until one has no place: the first   *)
(* list with such an item is the last of which items are stored.           *)
Misfit(list) == ~HasPlace(Len(list[2]) - 1, list[1])
ExtendLists(lists, r) ==
    LET bad == { k \in DOMAIN lists : Misfit(lists[k]) }
        end == IF bad = {} THEN Len(lists) ELSE CHOOSE k \in bad : \A j \in bad : k <= j
    IN /\ r = IF bad = {} THEN <<"ok">> ELSE <<"err", "OutOfBounds">>
       /\ \E rows \in {Rows(SubSeq(lists, 1, end))} : Put([i \in 1..(w * h) |->
                 IF Col(i - 1) < Len(rows[Row(i - 1)]) THEN rows[Row(i - 1)][Col(i - 1) + 1] ELSE cells[i]])

Transform(sym) ==
    /\ sym \in Symmetries
    /\ Put([i \in 1..(w * h) |-> cells[Image(Inverse(sym), i - 1) + 1]])

Save == saved' = cells /\ UNCHANGED <<w, h, cells>>
Swap == saved # <<>> /\ saved' = cells /\ cells' = saved /\ UNCHANGED fixed
Compare(r) == saved # <<>> /\ r = (cells = saved) /\ Same
=============================================================================
