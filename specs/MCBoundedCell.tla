---------------------------- MODULE MCBoundedCell ----------------------------
(* All registers with bounds in a small interval, all operations. *)
EXTENDS BoundedCell, TLC
CONSTANT N
Small == { BigOf(n) : n \in (-N)..N }
Wide == { BigOf(n) : n \in (-N - 2)..(N + 2) }

Outcomes ==
    { <<"ok", v>> : v \in Wide } \cup { <<"some", v>> : v \in Wide }
    \cup { <<"err", "OutOfBounds">>, <<"panic">>, <<"none">>, <<"err">> }

Init == /\ lo \in Small /\ hi \in Small
        /\ BigLe(lo, hi)
        /\ val = Closest
DoCreate == \E a \in Wide, r \in Outcomes : Create(a, r)
DoCreateUnwrap == \E a \in Wide, r \in Outcomes : CreateUnwrap(a, r)
DoAdd == \E b \in Wide, r \in Outcomes : Add(b, r)
DoSub == \E b \in Wide, r \in Outcomes : Sub(b, r)
DoInc == \E r \in Outcomes : Inc(r)
DoDec == \E r \in Outcomes : Dec(r)
DoDefault == \E r \in Outcomes : Default(r)
DoRead == \E r \in Outcomes : Read(r)
DoToIndex == \E r \in Outcomes : ToIndex(r)
DoBool == \E b \in BOOLEAN, r \in Outcomes : FromBool(b, r)
Next == DoCreate \/ DoCreateUnwrap \/ DoAdd \/ DoSub \/ DoInc \/ DoDec
        \/ DoDefault \/ DoRead \/ DoToIndex \/ DoBool
Spec == Init /\ [][Next]_vars

\* Every operation has exactly one outcome in every state: the specification
\* decides the result of each call, it neither blocks nor is permissive.
One(S) == \E x \in S : S = {x}
TypeOK == IsBig(lo) /\ IsBig(hi) /\ IsBig(val)
Decided ==
    /\ \A a \in Wide :
         /\ One({ r \in Outcomes : ENABLED Create(a, r) })
         /\ One({ r \in Outcomes : ENABLED CreateUnwrap(a, r) })
         /\ InBounds(a) => /\ One({ r \in Outcomes : ENABLED Add(a, r) })
                           /\ One({ r \in Outcomes : ENABLED Sub(a, r) })
    /\ One({ r \in Outcomes : ENABLED Inc(r) })
    /\ One({ r \in Outcomes : ENABLED Dec(r) })
    /\ One({ r \in Outcomes : ENABLED Default(r) })
    /\ One({ r \in Outcomes : ENABLED Read(r) })
    /\ One({ r \in Outcomes : ENABLED ToIndex(r) })
\* The results are the mathematical ones
Exact ==
    \A a \in Wide, r \in Outcomes :
        /\ ENABLED Create(a, r) =>
             (r[1] = "ok" <=> BigVal(lo) <= BigVal(a) /\ BigVal(a) <= BigVal(hi))
        /\ ENABLED Create(a, r) /\ r[1] = "ok" => r[2] = a
        /\ ENABLED Add(a, r) /\ r[1] = "some" => BigVal(r[2]) = BigVal(val) + BigVal(a)
        /\ ENABLED Add(a, r) /\ r[1] = "none" =>
             BigVal(val) + BigVal(a) \notin BigVal(lo)..BigVal(hi)
        /\ ENABLED Sub(a, r) /\ r[1] = "some" => BigVal(r[2]) = BigVal(val) - BigVal(a)
        /\ ENABLED Sub(a, r) /\ r[1] = "none" =>
             BigVal(val) - BigVal(a) \notin BigVal(lo)..BigVal(hi)
\* The large-number arithmetic agrees with the builtin one
Arith ==
    \A a \in Wide :
        /\ BigVal(BigAdd(a, val)) = BigVal(a) + BigVal(val)
        /\ BigVal(BigSub(a, val)) = BigVal(a) - BigVal(val)
        /\ BigVal(BigMul(a, val)) = BigVal(a) * BigVal(val)
        /\ BigLe(a, val) = (BigVal(a) <= BigVal(val))
        /\ IsBig(BigAdd(a, val)) /\ IsBig(BigMul(a, val)) /\ IsBig(BigSub(a, val))
=============================================================================
