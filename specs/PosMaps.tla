------------------------------- MODULE PosMaps -------------------------------
(***************************************************************************)
(* Storage by position (property C19): `map` has the value of each cell,   *)
(* `set` the cells that were inserted; all backends are asked at once, and *)
(* each answer is a sequence with the answer of each backend.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES n, map, set
pmvars == <<n, map, set>>
Cells == 0..(n - 1)
All(answers, v) == answers # <<>> /\ \A i \in DOMAIN answers : answers[i] = v

New(v) == map' = [p \in Cells |-> v] /\ UNCHANGED <<n, set>>
Put(p, v) == map' = [map EXCEPT ![p] = v] /\ UNCHANGED <<n, set>>
Get(p, answers) == All(answers, map[p]) /\ UNCHANGED pmvars
NewSet == set' = {} /\ UNCHANGED <<n, map>>
Insert(p) == set' = set \cup {p} /\ UNCHANGED <<n, map>>
Remove(p) == set' = set \ {p} /\ UNCHANGED <<n, map>>
SetTo(p, v) == IF v THEN Insert(p) ELSE Remove(p)
Contains(p, answers) == All(answers, p \in set) /\ UNCHANGED pmvars
=============================================================================
