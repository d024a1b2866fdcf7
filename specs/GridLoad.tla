------------------------------ MODULE GridLoad ------------------------------
(***************************************************************************)
(* How sqrid extends a grid from nested lists (property C14): item by      *)
(* item, until one has no place.  Counters wrap around at Wrap (0: never). *)
(***************************************************************************)
EXTENDS Symmetry
CONSTANT Wrap
VARIABLES lists, cells, y, x, outcome
glvars == <<w, h, lists, cells, y, x, outcome>>
Counter(n) == IF Wrap = 0 THEN n ELSE n % Wrap
Begin(n, m, ls) ==
    /\ w = n /\ h = m /\ lists = ls
    /\ cells = [i \in 1..(w * h) |-> 0]
    /\ y = 1 /\ x = 1 /\ outcome = "running"
Item ==
    /\ outcome = "running" /\ y <= Len(lists) /\ x <= Len(lists[y])
    /\ LET cx == Counter(x - 1) cy == Counter(y - 1)
       IN IF cx < w /\ cy < h
          THEN cells' = [cells EXCEPT ![Cell(cx, cy) + 1] = lists[y][x]] /\ x' = x + 1 /\ UNCHANGED outcome
          ELSE outcome' = "error" /\ UNCHANGED <<cells, x>>
    /\ UNCHANGED <<w, h, lists, y>>
EndOfList ==
    /\ outcome = "running" /\ y <= Len(lists) /\ x > Len(lists[y])
    /\ y' = y + 1 /\ x' = 1 /\ UNCHANGED <<w, h, lists, cells, outcome>>
End == /\ outcome = "running" /\ y > Len(lists) /\ outcome' = "ok"
       /\ UNCHANGED <<w, h, lists, cells, y, x>>
=============================================================================
