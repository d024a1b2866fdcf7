----------------------------- MODULE BoundedCell -----------------------------
(***************************************************************************)
(* A register of a bounded integer type (property C01).                    *)
(*                                                                         *)
(* `lo` and `hi` are the bounds of the type, `val` is the number held.     *)
(* The actions are the public operations; each has the arguments of the    *)
(* call and its outcome `r`, a sequence that starts with a tag:            *)
(*   <<"ok", v>>  <<"err", name>>  <<"panic">>  <<"some", v>>  <<"none">>  *)
(* A successful operation leaves its result in the register.               *)
(***************************************************************************)
EXTENDS BigInt

VARIABLES lo, hi, val
vars == <<lo, hi, val>>

InBounds(v) == BigIn(v, lo, hi)

\* Constructors and conversions from any number: exact, or refused
Create(a, r) ==
    /\ IF InBounds(a)
       THEN r = <<"ok", a>> /\ val' = a
       ELSE r = <<"err", "OutOfBounds">> /\ UNCHANGED val
    /\ UNCHANGED <<lo, hi>>

\* The unwrapping constructor
CreateUnwrap(a, r) ==
    /\ IF InBounds(a)
       THEN r = <<"ok", a>> /\ val' = a
       ELSE r = <<"panic">> /\ UNCHANGED val
    /\ UNCHANGED <<lo, hi>>

\* checked_add and checked_sub
Combine(exact, r) ==
    /\ IF InBounds(exact)
       THEN r = <<"some", exact>> /\ val' = exact
       ELSE r = <<"none">> /\ UNCHANGED val
    /\ UNCHANGED <<lo, hi>>
Add(b, r) == InBounds(b) /\ Combine(BigAdd(val, b), r)
Sub(b, r) == InBounds(b) /\ Combine(BigSub(val, b), r)
Inc(r) == Combine(BigInc(val), r)
Dec(r) == Combine(BigDec(val), r)

\* The value in bounds that is closest to zero
Closest == BigMax(lo, BigMin(hi, BigZero))
Default(r) ==
    /\ r = <<"ok", Closest>>
    /\ val' = Closest
    /\ UNCHANGED <<lo, hi>>

\* Ways to look at the value
Read(r) == r = <<"ok", val>> /\ UNCHANGED vars
ToIndex(r) ==
    /\ r = IF BigIn(val, BigZero, U64Max) THEN <<"ok", val>> ELSE <<"err">>
    /\ UNCHANGED vars
Compare(b, r) ==
    /\ InBounds(b)
    /\ r = <<"ok", BigCmp(val, b)>>
    /\ UNCHANGED vars
Bounds(r) == r = <<"ok", lo, hi>> /\ UNCHANGED vars

\* From<bool>: zero or one, which the type has to be able to hold
FromBool(b, r) ==
    LET v == BigOf(IF b THEN 1 ELSE 0)
    IN /\ InBounds(v) /\ r = <<"ok", v>>
       /\ val' = v
       /\ UNCHANGED <<lo, hi>>

(***************************************************************************)
(* Safety: whatever the history, the register is in bounds.                *)
(***************************************************************************)
Safe == InBounds(val)
=============================================================================
