------------------------------ MODULE CameFrom ------------------------------
(***************************************************************************)
(* Reconstruction of a path from a came-from map (property C26): `way` has *)
(* the direction back of each cell, -1 if there is none.  A walker goes    *)
(* from the destination, along the directions, until there is an outcome;  *)
(* `trail` is the path from where it is to the destination.                *)
(***************************************************************************)
EXTENDS Terrain
VARIABLES way, dest, at, trail
cfvars == <<terrain, way, dest, at, trail>>

\* The cells may be a part of a larger grid, with nothing elsewhere
Way(p) == IF p \in Cells THEN way[p + 1] ELSE -1
Idle == dest = -1 /\ at = -1 /\ trail = <<>>
Ask(d) == /\ dest = -1
          /\ dest' = d /\ at' = d /\ trail' = <<>>
          /\ UNCHANGED <<terrain, way>>

Arrived == at = orig
Lost == Way(at) = -1 \/ Beside(at, Way(at)) = -1
\* Whoever has made as many steps as there are cells has been somewhere twice,
\* and will be there again
Limit == w * h
Circling == Len(trail) >= Limit
Going == dest # -1 /\ Way(dest) # -1 /\ ~Arrived /\ ~Lost /\ ~Circling
Follow == /\ Going
          /\ at' = Beside(at, Way(at))
          /\ trail' = <<Opposite(Way(at))>> \o trail
          /\ UNCHANGED <<terrain, way, dest>>

Result == IF Way(dest) = -1 THEN <<"err", "DestinationUnreachable">>
          ELSE IF Arrived THEN <<"ok", trail>>
          ELSE IF Lost THEN <<"err", "InvalidMovement">>
          ELSE <<"err", "Loop">>
Outcome(r) == /\ dest # -1 /\ ~Going
              /\ r = Result
              /\ dest' = -1 /\ at' = -1 /\ trail' = <<>>
              /\ UNCHANGED <<terrain, way>>
=============================================================================
