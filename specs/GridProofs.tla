----------------------------- MODULE GridProofs -----------------------------
(***************************************************************************)
(* What holds of steps and distances on grids of every size (and of        *)
(* unlimited coordinates), proved with the TLA+ proof system: distances    *)
(* are a metric, the estimates of module AstarHeap are consistent,         *)
(* declarations get as many words as needed.                               *)
(***************************************************************************)
EXTENDS Integers, TLAPS

Abs(n) == IF n < 0 THEN -n ELSE n
Manhattan(x, y, u, v) == Abs(x - u) + Abs(y - v)
Halved(n) == (n + 1) \div 2
\* One step, straight or towards any of the eight
Straight(x, y, u, v) == Manhattan(x, y, u, v) = 1
Eight(x, y, u, v) == Abs(x - u) <= 1 /\ Abs(y - v) <= 1 /\ (x # u \/ y # v)

THEOREM Metric == \A x, y, u, v, s, t \in Int :
    /\ Manhattan(x, y, u, v) \in Nat
    /\ Manhattan(x, y, u, v) = 0 <=> (x = u /\ y = v)
    /\ Manhattan(x, y, u, v) = Manhattan(u, v, x, y)
    /\ Manhattan(x, y, s, t) <= Manhattan(x, y, u, v) + Manhattan(u, v, s, t)
  BY Z3T(30) DEF Manhattan, Abs

\* A step changes the distance to any target by at most one, or by two
THEOREM Steps == \A x, y, u, v, s, t \in Int :
    /\ Straight(x, y, u, v) => Manhattan(x, y, s, t) <= 1 + Manhattan(u, v, s, t)
    /\ Eight(x, y, u, v) => Manhattan(x, y, s, t) <= 2 + Manhattan(u, v, s, t)
  BY Z3T(30) DEF Straight, Eight, Manhattan, Abs
\* and on a straight walk without walls always by one
THEOREM Parity == \A x, y, u, v, s, t \in Int :
    Straight(x, y, u, v) => \/ Manhattan(x, y, s, t) = Manhattan(u, v, s, t) + 1
                            \/ Manhattan(x, y, s, t) = Manhattan(u, v, s, t) - 1
<1> TAKE x, y, u, v, s, t \in Int
<1> HAVE Straight(x, y, u, v)
<1>1 (x = u /\ (y = v + 1 \/ y = v - 1)) \/ (y = v /\ (x = u + 1 \/ x = u - 1))
  BY Z3T(30) DEF Straight, Manhattan, Abs
<1>2 CASE x = u /\ y = v + 1 BY <1>2, Z3T(30) DEF Manhattan, Abs
<1>3 CASE x = u /\ y = v - 1 BY <1>3, Z3T(30) DEF Manhattan, Abs
<1>4 CASE y = v /\ x = u + 1 BY <1>4, Z3T(30) DEF Manhattan, Abs
<1>5 CASE y = v /\ x = u - 1 BY <1>5, Z3T(30) DEF Manhattan, Abs
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5
THEOREM Estimates == \A x, y, u, v, s, t \in Int :
    /\ Straight(x, y, u, v) => Manhattan(x, y, s, t) <= 1 + Manhattan(u, v, s, t)
    /\ Eight(x, y, u, v) => Halved(Manhattan(x, y, s, t)) <= 1 + Halved(Manhattan(u, v, s, t))
<1> TAKE x, y, u, v, s, t \in Int
<1> DEFINE a == Manhattan(x, y, s, t)
           b == Manhattan(u, v, s, t)
<1>1 a \in Nat /\ b \in Nat BY Metric
<1>2 Eight(x, y, u, v) => a <= 2 + b BY Steps
<1> HIDE DEF a, b
<1>3 a <= 2 + b => Halved(a) <= 1 + Halved(b) BY <1>1, Z3T(30) DEF Halved
<1> QED BY <1>2, <1>3, Steps DEF a, b
\* The distance itself would be too high where one can go diagonally
THEOREM Whole == ~ \A x, y, u, v, s, t \in Int :
    Eight(x, y, u, v) => Manhattan(x, y, s, t) <= 1 + Manhattan(u, v, s, t)
<1>1 Eight(0, 0, 1, 1) /\ Manhattan(0, 0, 1, 1) = 2 /\ Manhattan(1, 1, 1, 1) = 0
  BY DEF Eight, Manhattan, Abs
<1> QED BY <1>1

\* Words of 32 bits: all that are needed, and at most one more
Fits(n, k) == n <= 32 * k /\ 32 * k - 32 <= n
THEOREM Words == \A n \in Nat : n >= 1 => Fits(n, (n + 31) \div 32) /\ Fits(n, n \div 32 + 1)
  BY SMT DEF Fits
\* and every bit of a set is in one of them
THEOREM Bits == \A n \in Nat, i \in Nat : i < n =>
    /\ i \div 32 < (n + 31) \div 32 /\ i \div 32 < n \div 32 + 1
    /\ i % 32 \in 0..31 /\ i = 32 * (i \div 32) + (i % 32)
  BY SMT
=============================================================================
