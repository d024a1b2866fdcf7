------------------------------ MODULE Explorer ------------------------------
(***************************************************************************)
(* What searches may ask for (property C32): they know nothing but the     *)
(* origin and what the movement function told them.  `reached` are the     *)
(* cells that they know of.                                                *)
(***************************************************************************)
EXTENDS Terrain
VARIABLES reached
exvars == <<terrain, reached>>

Start == reached = {orig}
\* The movement function is asked for a cell and a direction, and answers q (-1: nothing)
Ask(p, d, q) ==
    /\ p \in reached /\ d \in usable
    /\ q = Dest(p, d)
    /\ reached' = IF q = -1 THEN reached ELSE reached \cup {q}
    /\ UNCHANGED terrain
\* The goal predicate is asked for a cell
Judge(p) == p \in reached /\ UNCHANGED exvars
=============================================================================
