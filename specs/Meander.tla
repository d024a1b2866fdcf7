------------------------------- MODULE Meander -------------------------------
(***************************************************************************)
(* A corridor that goes back and forth through the lines of a grid         *)
(* (properties C20 to C24, C26 and C30, for ways of any length): `len`     *)
(* positions per line, `count` lines, open as far as the position that is  *)
(* `reach` steps away from the beginning.  There is only one way, so all   *)
(* that searches may answer is known without exploring, and grids that are *)
(* too large for the other specifications can be judged.                   *)
(*                                                                         *)
(* Ways are given as runs <<n, d>>: n steps towards direction d.  Lines    *)
(* are horizontal, unless `down`.                                          *)
(***************************************************************************)
EXTENDS Directions

VARIABLES len, count, down, reach,
          at    \* how far an iteration has come; -1 before the beginning
corridor == <<len, count, down, reach>>
mevars == <<corridor, at>>

Size == len * count
Along(k) == k % len
Line(k) == k \div len
\* Place of the position that is k steps away from the beginning
Across(k) == IF Line(k) % 2 = 0 THEN Along(k) ELSE len - 1 - Along(k)
XOf(k) == IF down THEN Line(k) ELSE Across(k)
YOf(k) == IF down THEN Across(k) ELSE Line(k)

\* Direction of the step from k to k + 1
Turns(k) == Along(k) = len - 1
Towards(k) ==
    IF Turns(k) THEN IF down THEN 2 ELSE 4
    ELSE IF Line(k) % 2 = 0 THEN IF down THEN 4 ELSE 2
    ELSE IF down THEN 0 ELSE 6
\* How many steps from k on go the same way
Straight(k) == IF Turns(k) THEN 1 ELSE len - 1 - Along(k)

\* The way from the beginning to k
RECURSIVE RunsFrom(_, _)
RunsFrom(j, k) ==
    IF j = k THEN <<>>
    ELSE LET n == IF Straight(j) < k - j THEN Straight(j) ELSE k - j
         IN <<<<n, Towards(j)>>>> \o RunsFrom(j + n, k)
Way(k) == <<"ok", RunsFrom(0, k)>>
Unreachable == <<"err", "DestinationUnreachable">>
Ask == UNCHANGED mevars

\* A breadth-first search has no goal at the beginning
Bfs(k, r) == r = (IF k > 0 /\ k <= reach THEN <<"ok", k, Way(k)[2]>> ELSE Unreachable)
Astar(k, r) == r = (IF k <= reach THEN Way(k) ELSE Unreachable)
Ucs(k, r) == Astar(k, r)
\* From a map that leads back all the way
Traced(k, r) == r = Way(k)
\* From a map that leads the other way round at the beginning, or out of the grid
Circled(k, r) == r = <<"err", "Loop">>
Left(k, r) == r = <<"err", "InvalidMovement">>
\* From k >= j to reach + 1, by a map that leads from j to the next line: there
\* at once, or round and round if there is a way back from there
Mirror(j) == (Line(j) + 1) * len + (len - 1 - Along(j))
Cut(k, j) == CASE Mirror(j) = reach + 1 -> <<"ok", <<<<1, IF down THEN 6 ELSE 0>>>> \o RunsFrom(j, k)>>
               [] Mirror(j) <= reach -> <<"err", "Loop">>
               [] OTHER -> <<"err", "InvalidMovement">>
Shortcut(k, j, r) == k >= j /\ Line(j) + 1 < count /\ r = Cut(k, j)

\* Iterations: the beginning, n positions that are one step ahead each, the end
Begin == at = -1 /\ at' = 0 /\ UNCHANGED corridor
Run(n, d, back) ==
    /\ at >= 0 /\ n >= 1 /\ n <= Straight(at) /\ at + n <= reach
    /\ d = Towards(at) /\ back = Opposite(d)
    /\ at' = at + n
    /\ UNCHANGED corridor
End == at = reach /\ UNCHANGED mevars
=============================================================================
