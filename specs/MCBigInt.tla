------------------------------ MODULE MCBigInt ------------------------------
(* The large-number arithmetic against TLC's, with numbers of up to 3 limbs  *)
(* around the limb boundaries, and against algebraic identities beyond that. *)
EXTENDS BigInt, TLC
Edge == {0, 1, 2, 9998, 9999, 10000, 10001, 19999, 20000, 99989999, 99990000, 100000000, 100000001}
VARIABLES a, b
vars == <<a, b>>
Init == a \in {x * y : x \in {-1, 1}, y \in Edge} /\ b \in {x * y : x \in {-1, 1}, y \in Edge}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
A == BigOf(a)
B == BigOf(b)
Same ==
    /\ IsBig(A) /\ BigVal(A) = a
    /\ BigVal(BigAdd(A, B)) = a + b
    /\ BigVal(BigSub(A, B)) = a - b
    /\ BigCmp(A, B) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
    /\ (a \in -20000..20000 /\ b \in -20000..20000) => BigVal(BigMul(A, B)) = a * b
Algebra ==
    LET P == BigMul(A, B) IN
    /\ IsBig(P)
    /\ P = BigMul(B, A)
    /\ BigMul(A, BigAdd(B, BigOne)) = BigAdd(P, A)
    /\ BigMul(BigMul(A, B), B) = BigMul(A, BigMul(B, B))
    /\ BigSub(BigMul(BigAdd(A, B), BigSub(A, B)), BigMul(A, A)) = BigNeg(BigMul(B, B))
    /\ U64Max = BigDec(BigMul(BigMul(BigOf(65536), BigOf(65536)), BigMul(BigOf(65536), BigOf(65536))))
=============================================================================
