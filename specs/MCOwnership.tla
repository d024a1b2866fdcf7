----------------------------- MODULE MCOwnership -----------------------------
(* Every history of a small grid of owned values. A grid that owns its     *)
(* values is a grid of values: with `label` saying what each token stands  *)
(* for, Ownership refines GridStore.                                       *)
EXTENDS Ownership
CONSTANTS W, H, Ids, Labels, InHand    \* tokens, and what they stand for other than 0
VARIABLES label, was, wascopy
mcvars == <<owvars, label, was, wascopy>>

Init ==
    /\ w = W /\ h = H
    /\ cells = [i \in 1..(W * H) |-> i]
    /\ copy = <<>> /\ hand = {} /\ live = Held(cells)
    /\ label = [t \in Ids |-> 0]
    /\ was = [i \in 1..(W * H) |-> 0] /\ wascopy = <<>>

Free == Ids \ live
\* Free tokens are interchangeable: the first ones are taken. `Fresh` is
\* empty when there are too few.
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN <<x>> \o Sorted(s \ {x})
Fresh(n) == IF Cardinality(Free) < n THEN {} ELSE {SubSeq(Sorted(Free), 1, n)}
\* Others than the first ones
Others(n, but) == IF Cardinality(Free) < n + but THEN {} ELSE {SubSeq(Sorted(Free), but + 1, but + n)}
As(origin, seq) == [i \in DOMAIN seq |-> <<seq[i], origin>>]
\* The deaths are those that leave everything owned
Gone(ids) == (live \cup ids) \ Placed'
RECURSIVE Listed(_)
Listed(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Listed(s \ {x})
Labelled(made, born, l) ==
    label' = [t \in Ids |->
        IF t \notin live' THEN 0
        ELSE IF t \in Held(made) THEN l
        ELSE IF \E b \in Held(born) : b[1] = t
             THEN LET b == CHOOSE b \in Held(born) : b[1] = t IN IF b[2] = 0 THEN 0 ELSE label[b[2]]
             ELSE label[t]]
Step(made, born, l) ==
    /\ Settle(made, born, Listed(Gone(Held(made) \cup Origins(born))))
    /\ Labelled(made, born, l)
Meaning(c, l) == [i \in DOMAIN c |-> l[c[i]]]
Marks ==
    /\ was' = IF cells' # <<>> THEN Meaning(cells', label') ELSE was
    /\ wascopy' = IF copy' # <<>> THEN Meaning(copy', label') ELSE wascopy
N == W * H
\* Lists of lists with so many items in each line
Split(lens, s) ==
    [y \in DOMAIN lens |->
        LET before == IF y = 1 THEN 0 ELSE IF y = 2 THEN lens[1] ELSE lens[1] + lens[2]
        IN SubSeq(s, before + 1, before + lens[y])]
Shapes == UNION { [1..k -> 0..(W + 1)] : k \in 0..2 }
Items(lens) == IF Len(lens) = 0 THEN 0 ELSE IF Len(lens) = 1 THEN lens[1] ELSE lens[1] + lens[2]

Kept ==
    \/ \E s \in Fresh(1), p \in 0..(N - 1), l \in Labels :
          \/ Write(p, s[1]) /\ Step(s, <<>>, l)
          \/ Replace(p, s[1]) /\ Step(s, <<>>, l)
    \/ \E s \in Fresh(1), p \in 0..(N - 1) :
          cells # <<>> /\ TakeOut(p, [cells EXCEPT ![p + 1] = s[1]], As(0, s)) /\ Step(<<>>, As(0, s), 0)
    \/ \E s \in Fresh(2), p \in 0..(N - 1), q \in 0..(N - 1), n \in 0..2, l \in Labels :
          Extend(<< <<p, s[1]>>, <<q, s[2]>> >>, n, IF n < 2 THEN <<"panic">> ELSE <<"ok">>) /\ Step(s, <<>>, l)
    \/ \E sym \in {"fliph", "flipv", "cw", "cc"} : Transform(sym) /\ Step(<<>>, <<>>, 0)
    \/ \E lens \in Shapes : \E s \in Fresh(Items(lens)), l \in Labels, r \in {<<"ok">>, <<"err", "OutOfBounds">>} :
          ExtendLists(Split(lens, s), r) /\ Step(s, <<>>, l)
Made ==
    \/ \E s \in Fresh(N), r \in {<<"ok">>, <<"panic">>}, risky \in BOOLEAN :
          Default(s, As(0, s), r, risky) /\ Step(<<>>, As(0, s), 0)
    \/ \E n \in 0..(N + 1) : \E s \in Fresh(n), r \in {<<"ok">>, <<"panic">>}, risky \in BOOLEAN, l \in Labels :
          Collect(s, r, risky) /\ Step(s, <<>>, l)
    \/ \E lens \in Shapes : \E s \in Fresh(Items(lens)), d \in Others(N, Items(lens)), l \in Labels,
             r \in {<<"ok">>, <<"err", "OutOfBounds">>, <<"panic">>}, risky \in BOOLEAN :
          /\ FromLists(Split(lens, s),
                       [i \in 1..N |-> IF HasItem(Split(lens, s), i - 1) THEN ItemAt(Split(lens, s), i - 1) ELSE d[i]],
                       As(0, d), r, risky)
          /\ Step(s, As(0, d), l)
Copies ==
    \/ \E s \in Fresh(N), r \in {<<"ok">>, <<"panic">>}, risky \in BOOLEAN :
          /\ cells # <<>>
          /\ \E born \in {[i \in 1..N |-> <<s[i], cells[i]>>]} : Clone(s, born, r, risky) /\ Step(<<>>, born, 0)
    \/ copy # <<>> /\ cells # <<>> /\ SwapGrids /\ Step(<<>>, <<>>, 0)
Ends ==
    \/ \E f, b \in 0..N : Consume(f, b) /\ Step(<<>>, <<>>, 0)
    \/ DropGrid /\ Step(<<>>, <<>>, 0)
    \/ DropCopy /\ Step(<<>>, <<>>, 0)
    \/ \E t \in hand : Release(<<t>>) /\ Step(<<>>, <<>>, 0)
Next == (Kept \/ Made \/ Copies \/ Ends) /\ Marks
Spec == Init /\ [][Next]_mcvars

\* The user holds few tokens
Few == Cardinality(hand) <= InHand
\* Nothing that is in a place was dropped, nothing that was not is lost
Safe == Owned
\* The grid never has holes
Whole == cells \in {<<>>} \cup [1..N -> Ids] /\ copy \in {<<>>} \cup [1..N -> Ids]
Values == INSTANCE GridStore WITH cells <- IF cells # <<>> THEN Meaning(cells, label) ELSE was,
                                  saved <- IF copy # <<>> THEN Meaning(copy, label) ELSE wascopy
\* What the grid of values does meanwhile
Refines == [][\/ Values!Same
              \/ \E p \in 0..(N - 1), v \in Labels \cup {0} : Values!Write(p, v)
              \/ \E p, q \in 0..(N - 1), v \in Labels : Values!Extend(<< <<p, v>>, <<q, v>> >>)
              \/ \E v \in Labels \cup {0} : Values!Repeat(v)
              \/ \E sym \in {"fliph", "flipv", "cw", "cc"} : Values!Transform(sym)
              \/ Values!Save \/ Values!Swap
              \/ \E lens \in Shapes, v \in Labels, r \in {<<"ok">>, <<"err", "OutOfBounds">>} :
                   \E lists \in {[y \in DOMAIN lens |-> <<y - 1, [x \in 1..lens[y] |-> v]>>]} :
                      Values!FromLists(Len(lists), lists, r) \/ Values!ExtendLists(lists, r)
             ]_mcvars
=============================================================================
