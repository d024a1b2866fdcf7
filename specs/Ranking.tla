------------------------------ MODULE Ranking ------------------------------
(***************************************************************************)
(* Comparisons of values (property C31).  items[i] is what value i holds.  *)
(* All pairs are compared at once: eq[i][j] tells if they are equal,       *)
(* order[i][j] is -1, 0 or 1, hash[i] numbers the different hashes.  Which *)
(* order it is doesn't matter (`numeric`: it is that of the numbers), but  *)
(* it stays the same: it is kept in `order`, for everything that uses it.  *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets
VARIABLES items, numeric, order
rkvars == <<items, numeric, order>>
Values == DOMAIN items

Start == order = <<>>
TotalOrder(o) ==
    \A i, j \in Values :
        /\ o[i][j] \in {-1, 0, 1}
        /\ (o[i][j] = 0) = (items[i] = items[j])
        /\ o[i][j] = -o[j][i]
        /\ \A k \in Values : (o[i][j] <= 0 /\ o[j][k] <= 0) => o[i][k] <= 0
Compare(eq, o, hash) ==
    /\ DOMAIN eq = Values /\ DOMAIN o = Values /\ DOMAIN hash = Values
    /\ \A i, j \in Values :
         /\ eq[i][j] = (items[i] = items[j])
         /\ items[i] = items[j] => hash[i] = hash[j]
         /\ numeric => o[i][j] = BigCmp(items[i], items[j])
    /\ TotalOrder(o)
    /\ order' = o
    /\ UNCHANGED <<items, numeric>>
\* Grids of values that can't all be compared: Odd isn't even equal to itself
Odd == 1000
Plain(i) == \A c \in DOMAIN items[i] : items[i][c] # Odd
None == 2
PartialOrder(o) ==
    \A i, j \in Values :
        /\ o[i][j] \in {-1, 0, 1, None}
        /\ (o[i][j] = 0) = (items[i] = items[j] /\ Plain(i))
        /\ IF o[i][j] = None THEN o[j][i] = None ELSE o[i][j] = -o[j][i]
        /\ (Plain(i) /\ Plain(j)) => o[i][j] # None
        /\ \A k \in Values : (o[i][j] \in {-1, 0} /\ o[j][k] \in {-1, 0}) => o[i][k] \in {-1, 0}
Loosely(eq, o) ==
    /\ DOMAIN eq = Values /\ DOMAIN o = Values
    /\ \A i, j \in Values : eq[i][j] = (o[i][j] = 0)
    /\ PartialOrder(o)
    /\ UNCHANGED rkvars
\* r lists all the values in order
IsSorted(r) ==
    /\ Len(r) = Len(items) /\ { r[i] : i \in DOMAIN r } = Values
    /\ \A i \in 1..(Len(r) - 1) : order[r[i]][r[i + 1]] <= 0
Sorted(r) == order # <<>> /\ IsSorted(r) /\ UNCHANGED rkvars
\* The least and the greatest of two values
Extremes(i, j, least, greatest) ==
    /\ order # <<>>
    /\ least \in {i, j} /\ greatest \in {i, j}
    /\ order[least][greatest] <= 0
    /\ {items[least], items[greatest]} = {items[i], items[j]}
    /\ UNCHANGED rkvars
\* A collection of the values has each one of them once
Distinct(n) == n = Cardinality({ items[i] : i \in Values }) /\ UNCHANGED rkvars
=============================================================================
