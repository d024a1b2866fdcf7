---------------------------- MODULE MCMeanderBack ----------------------------
(* Small corridors: reconstructing a way through a corridor, by the walker   *)
(* of CameFrom, has the outcome that Meander claims.                         *)
EXTENDS Meander, FiniteSets
CONSTANTS Lens, Counts
VARIABLES w, h, usable, go, cost, orig, way, dest, walker, trail, kind, from, short
CF == INSTANCE CameFrom WITH at <- walker
vars == <<mevars, w, h, usable, go, cost, orig, way, dest, walker, trail, kind, from, short>>

Cell(k) == YOf(k) * w + XOf(k)
Out == IF down THEN 6 ELSE 0
BackTable == [i \in 1..Size |->
    IF kind = "shortcut" /\ i - 1 = Cell(short) THEN IF down THEN 2 ELSE 4
    ELSE IF \E k \in 1..reach : Cell(k) = i - 1 THEN Opposite(Towards((CHOOSE k \in 1..reach : Cell(k) = i - 1) - 1))
    ELSE IF i = 1 THEN CASE kind = "circled" -> Towards(0) [] kind = "left" -> Out [] OTHER -> -1
    ELSE -1]
Init ==
    /\ len \in Lens /\ count \in Counts /\ down \in BOOLEAN /\ reach \in 1..(Size - 1)
    /\ kind \in {"traced", "circled", "left", "shortcut"} /\ (kind # "traced" => reach < Size - 1)
    /\ IF kind = "shortcut" THEN short \in 0..reach /\ Line(short) + 1 < count /\ from \in short..reach
                            ELSE short = -1 /\ from = reach
    /\ at = -1
    /\ w = (IF down THEN count ELSE len) /\ h = (IF down THEN len ELSE count)
    /\ usable = Dirs /\ go = <<>> /\ cost = <<>>
    /\ orig = (IF kind = "traced" THEN 0 ELSE Cell(reach + 1))
    /\ way = BackTable
    /\ dest = -1 /\ walker = -1 /\ trail = <<>>
Rest == UNCHANGED <<mevars, kind, from, short>>
Question == CF!Ask(Cell(from)) /\ Rest
Forward == CF!Follow /\ Rest
Stop == dest # -1 /\ ~CF!Going /\ UNCHANGED vars
Next == Question \/ Forward \/ Stop
Spec == Init /\ [][Next]_vars

Expand(runs) == LET RECURSIVE X(_)
                    X(i) == IF i > Len(runs) THEN <<>> ELSE [j \in 1..runs[i][1] |-> runs[i][2]] \o X(i + 1)
                IN X(1)
Claimed == CASE kind = "traced" -> Way(reach) [] kind = "circled" -> <<"err", "Loop">>
             [] kind = "shortcut" -> Cut(from, short) [] OTHER -> <<"err", "InvalidMovement">>
Claim(r) == CASE kind = "traced" -> Traced(reach, r) [] kind = "circled" -> Circled(reach, r)
              [] kind = "shortcut" -> Shortcut(from, short, r) [] OTHER -> Left(reach, r)
AsClaimed == (dest # -1 /\ ~CF!Going) =>
    /\ Claim(Claimed)
    /\ CF!Result = IF Claimed[1] = "ok" THEN <<"ok", Expand(Claimed[2])>> ELSE Claimed
=============================================================================
