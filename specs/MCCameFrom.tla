----------------------------- MODULE MCCameFrom -----------------------------
(* All came-from maps of small grids: the walker always stops, with the      *)
(* outcome that is right by definition.                                      *)
EXTENDS CameFrom, TLC
CONSTANTS WS, HS, Ways
VARIABLE been     \* where the walker has been
mcvars == <<cfvars, been>>
SomeWays == {-1, 0, 2, 4, 6}
AllWays == {-1} \cup Dirs
Init == /\ w \in WS /\ h \in HS /\ usable = Dirs /\ go = <<>> /\ cost = <<>>
        /\ orig \in Cells /\ way \in [1..(w * h) -> Ways]
        /\ Idle /\ been = {}
Question == \E d \in Cells : Ask(d) /\ been = {} /\ been' = {d}
Forward == Follow /\ been' = been \cup {at'}
Stop == dest # -1 /\ \E r \in {Result} : Outcome(r) /\ been' = Cells
Next == Question \/ Forward \/ Stop
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

\* Cells from which the directions lead to the origin
RECURSIVE Grow(_)
Grow(s) == LET t == s \cup { p \in Cells : Way(p) # -1 /\ Beside(p, Way(p)) \in s }
           IN IF t = s THEN s ELSE Grow(t)
Home == Grow({orig})
\* Cells from which they lead nowhere
RECURSIVE GrowAway(_)
GrowAway(s) == LET t == s \cup { p \in Cells \ {orig} : Way(p) # -1 /\ Beside(p, Way(p)) \in s }
               IN IF t = s THEN s ELSE GrowAway(t)
Astray == GrowAway({ p \in Cells \ {orig} : Way(p) = -1 \/ Beside(p, Way(p)) = -1 })

\* Following the path from the origin
RECURSIVE Go(_, _)
Go(p, path) == IF path = <<>> THEN p ELSE Go(Beside(p, Head(path)), Tail(path))
Correct == (dest # -1 /\ ~Going) =>
    CASE Way(dest) = -1 -> Result = <<"err", "DestinationUnreachable">>
      [] Way(dest) # -1 /\ dest \in Home -> Result[1] = "ok" /\ Go(orig, Result[2]) = dest
      [] Way(dest) # -1 /\ dest \in Astray -> Result = <<"err", "InvalidMovement">>
      [] OTHER -> Result = <<"err", "Loop">>
\* A trail that is given up has come by some cell twice
LoopsAreLoops == (dest # -1 /\ Circling /\ ~Arrived /\ ~Lost) => Cardinality(been) < Len(trail) + 1
TrailLeadsHere == dest # -1 => Go(at, trail) = dest
Stops == <>(been = Cells /\ dest = -1)
\* A limit that forgets one dimension is wrong
SquareLimit == w * w
=============================================================================
