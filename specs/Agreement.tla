------------------------------ MODULE Agreement ------------------------------
(***************************************************************************)
(* All ways of searching for the same thing agree (property C25).  The     *)
(* first answer is recorded in `verdict`, <<>> before it; all others must  *)
(* say the same: the same error, or paths of the same measure, which is    *)
(* the length or, on terrains with costs, the total cost.                  *)
(***************************************************************************)
EXTENDS Terrain
VARIABLE verdict
agvars == <<terrain, verdict>>

Start == verdict = <<>>
Measure(path) == IF cost = <<>> THEN BigOf(Len(path)) ELSE PathCost(path)
Meaning(r) == IF r[1] = "ok" THEN <<"ok", Measure(r[2])>> ELSE r
Say(v) == /\ v[1] \in {"ok", "err"}
          /\ verdict \in {<<>>, v}
          /\ verdict' = v
          /\ UNCHANGED terrain
Found(r) == /\ (r[1] = "ok" /\ cost # <<>>) => Walk(r[2]) # -1
            /\ Say(Meaning(r))
\* The step at which a breadth-first iteration yields a cell, -1 if it doesn't
Layered(step) == Say(IF step = -1 THEN <<"err", "DestinationUnreachable">> ELSE <<"ok", BigOf(step)>>)
=============================================================================
