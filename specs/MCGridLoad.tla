----------------------------- MODULE MCGridLoad -----------------------------
(* Loading item by item has the outcome that GridStore wants, in one step. *)
EXTENDS GridLoad, FiniteSets
CONSTANTS MaxW, MaxH, Over
Init == \E n \in 1..MaxW, m \in 1..MaxH, k \in 0..(MaxH + Over) :
          \E lens \in [1..k -> 0..(MaxW + Over)] :
             Begin(n, m, [i \in 1..k |-> [j \in 1..lens[i] |-> 10 * i + j]])
Next == Item \/ EndOfList \/ End
Spec == Init /\ [][Next]_glvars /\ WF_glvars(Next)
\* The same lists for GridStore
RECURSIVE Sparse(_)
Sparse(i) == IF i > Len(lists) THEN <<>>
             ELSE (IF lists[i] = <<>> THEN <<>> ELSE << <<i - 1, lists[i]>> >>) \o Sparse(i + 1)
Zero == [i \in 1..(w * h) |-> 0]
GS == INSTANCE GridStore WITH cells <- IF outcome = "running" THEN Zero ELSE cells, saved <- <<>>
Outcome == IF outcome' = "ok" THEN <<"ok">> ELSE <<"err", "OutOfBounds">>
Refines == [][IF outcome' = "running" THEN GS!Same ELSE GS!ExtendLists(Sparse(1), Outcome)]_glvars
\* Where they fit, loading a new grid gives the same
Agrees == [][outcome' # "running" =>
               (GS!FitsIn(Len(lists), Sparse(1)) => GS!FromLists(Len(lists), Sparse(1), Outcome))]_glvars
Ends == <>(outcome # "running")
=============================================================================
