------------------------------- MODULE BfQueue -------------------------------
(***************************************************************************)
(* How the library iterates breadth-first: a queue of cells to look at     *)
(* next and a set of visited cells.  Each step looks around all the cells  *)
(* of the queue in order and yields them.                                  *)
(***************************************************************************)
EXTENDS Terrain
CONSTANT MarkEarly   \* cells are marked as visited when they are queued
VARIABLES visited, queue, yielded
qvars == <<terrain, visited, queue, yielded>>

Clockwise == IF usable = Dirs THEN <<0, 1, 2, 3, 4, 5, 6, 7>> ELSE <<0, 2, 4, 6>>
\* <<visited, queue>> after looking around p towards the k-th direction and on
RECURSIVE Around(_, _, _)
Around(p, k, s) ==
    IF k > Len(Clockwise) THEN s
    ELSE LET d == Clockwise[k]
             q == Dest(p, d)
         IN Around(p, k + 1,
                   IF q = -1 \/ q \in s[1] THEN s
                   ELSE <<IF MarkEarly THEN s[1] \cup {q} ELSE s[1], Append(s[2], <<q, Opposite(d)>>)>>)
RECURSIVE Expand(_, _, _)
Expand(items, i, s) ==
    IF i > Len(items) THEN s
    ELSE Expand(items, i + 1, Around(items[i][1], 1, <<s[1] \cup {items[i][1]}, s[2]>>))

\* The origin is the first queue; its step is made at once, and not yielded
Start == LET s == Expand(<< <<orig, 0>> >>, 1, << {}, <<>> >>)
         IN visited = s[1] /\ queue = s[2] /\ yielded = <<>>
Yield == /\ queue # <<>>
         /\ LET s == Expand(queue, 1, <<visited, <<>>>>)
            IN visited' = s[1] /\ queue' = s[2]
         /\ yielded' = queue
         /\ UNCHANGED terrain
=============================================================================
