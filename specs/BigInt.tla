------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Integers of any size, as TLC's own are limited to 32 bits.              *)
(*                                                                         *)
(* An integer is <<sign, magnitude>> with sign in {-1, 0, 1} and the       *)
(* magnitude a sequence of limbs in base 10000, least significant first,   *)
(* without leading zeros.  The representation is canonical, so "=" is      *)
(* numerical equality.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

IsBig(a) ==
    /\ DOMAIN a = 1..2
    /\ a[1] \in {-1, 0, 1}
    /\ (a[1] = 0) = (a[2] = <<>>)
    /\ \A i \in DOMAIN a[2] : a[2][i] \in 0..(Base - 1)
    /\ a[2] # <<>> => a[2][Len(a[2])] # 0

(* Magnitudes *)

RECURSIVE MagTrim(_)
MagTrim(m) ==
    IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE MagTrim(SubSeq(m, 1, Len(m) - 1))

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

\* -1, 0 or 1 as a < b, a = b or a > b
RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE MagCmpFrom(a, b, i - 1)
MagCmp(a, b) ==
    IF Len(a) < Len(b) THEN -1
    ELSE IF Len(a) > Len(b) THEN 1
    ELSE MagCmpFrom(a, b, Len(a))

RECURSIVE MagAddFrom(_, _, _, _, _)
MagAddFrom(a, b, i, carry, acc) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
    ELSE LET t == Limb(a, i) + Limb(b, i) + carry
         IN MagAddFrom(a, b, i + 1, t \div Base, Append(acc, t % Base))
MagAdd(a, b) == MagAddFrom(a, b, 1, 0, <<>>)

\* a - b, for a >= b
RECURSIVE MagSubFrom(_, _, _, _, _)
MagSubFrom(a, b, i, borrow, acc) ==
    IF i > Len(a) THEN acc
    ELSE LET t == a[i] - Limb(b, i) - borrow
         IN MagSubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0,
                       Append(acc, IF t < 0 THEN t + Base ELSE t))
MagSub(a, b) == MagTrim(MagSubFrom(a, b, 1, 0, <<>>))

RECURSIVE MagMulLimb(_, _, _, _, _)
MagMulLimb(a, d, i, carry, acc) ==
    IF i > Len(a) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
    ELSE LET t == a[i] * d + carry
         IN MagMulLimb(a, d, i + 1, t \div Base, Append(acc, t % Base))
RECURSIVE MagMulFrom(_, _, _)
MagMulFrom(a, b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET low == MagMulLimb(a, b[i], 1, 0, <<>>)
             high == MagMulFrom(a, b, i + 1)
         IN MagAdd(low, IF high = <<>> THEN <<>> ELSE <<0>> \o high)
MagMul(a, b) == MagTrim(MagMulFrom(a, b, 1))

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MagOf(n \div Base)

(* Integers *)

BigZero == <<0, <<>>>>
BigOf(n) == IF n = 0 THEN BigZero
            ELSE IF n < 0 THEN <<-1, MagOf(-n)>> ELSE <<1, MagOf(n)>>
BigOne == BigOf(1)
Mk(sign, m) == IF m = <<>> THEN BigZero ELSE <<sign, m>>

BigNeg(a) == <<-a[1], a[2]>>
BigCmp(a, b) ==
    IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE IF a[1] = 0 THEN 0
    ELSE a[1] * MagCmp(a[2], b[2])
BigLt(a, b) == BigCmp(a, b) = -1
BigLe(a, b) == BigCmp(a, b) # 1
BigAdd(a, b) ==
    IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Mk(a[1], MagAdd(a[2], b[2]))
    ELSE LET c == MagCmp(a[2], b[2])
         IN IF c = 0 THEN BigZero
            ELSE IF c = 1 THEN Mk(a[1], MagSub(a[2], b[2]))
            ELSE Mk(b[1], MagSub(b[2], a[2]))
BigSub(a, b) == BigAdd(a, BigNeg(b))
BigMul(a, b) == Mk(a[1] * b[1], MagMul(a[2], b[2]))
BigAbs(a) == IF a[1] = -1 THEN BigNeg(a) ELSE a
BigMin(a, b) == IF BigLe(a, b) THEN a ELSE b
BigMax(a, b) == IF BigLe(a, b) THEN b ELSE a
BigInc(a) == BigAdd(a, BigOne)
BigDec(a) == BigSub(a, BigOne)
BigIn(a, lo, hi) == BigLe(lo, a) /\ BigLe(a, hi)

\* Value of a small integer; used to relate this module to the builtin integers
RECURSIVE MagVal(_)
MagVal(m) == IF m = <<>> THEN 0 ELSE Head(m) + Base * MagVal(Tail(m))
BigVal(a) == a[1] * MagVal(a[2])

\* The largest values of the builtin types of the implementation language
U64Max == <<1, <<1615, 955, 737, 6744, 1844>>>>
=============================================================================
