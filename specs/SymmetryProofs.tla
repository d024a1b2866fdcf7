--------------------------- MODULE SymmetryProofs ---------------------------
(***************************************************************************)
(* The laws of module Symmetry for grids of every size, proved with the    *)
(* TLA+ proof system (MCSymmetry checks them on small grids, along with    *)
(* the group they make).                                                   *)
(***************************************************************************)
EXTENDS Symmetry, TLAPS

LEMMA Multiple == \A n \in Nat, k \in Int : (n >= 1 /\ k >= 1) => n * k >= n
<1> TAKE n \in Nat, k \in Int
<1> HAVE n >= 1 /\ k >= 1
<1>1 (n - 1) * (k - 1) >= 0 BY Z3T(20)
<1> QED BY <1>1, Z3T(20)

LEMMA Between == \A n \in Nat, k \in Int : (n >= 1 /\ n * k < n /\ n * k > -n) => k = 0
<1> SUFFICES ASSUME NEW n \in Nat, NEW k \in Int, n >= 1, n * k < n, n * k > -n PROVE k = 0
  OBVIOUS
<1>1 ~ (k >= 1) BY Multiple
<1>2 ~ (k <= -1)
  <2> SUFFICES ASSUME k <= -1 PROVE FALSE OBVIOUS
  <2>1 -k >= 1 /\ -k \in Int OBVIOUS
  <2>2 n * (-k) >= n BY <2>1, Multiple
  <2>3 n * (-k) = -(n * k) BY Z3T(20)
  <2> QED BY <2>2, <2>3, Z3T(20)
<1> QED BY <1>1, <1>2

\* A column and a row, put together and taken apart
THEOREM Apart == \A n \in Nat, x \in Nat, y \in Nat : (n >= 1 /\ x < n) =>
    (y * n + x) % n = x /\ (y * n + x) \div n = y
<1> SUFFICES ASSUME NEW n \in Nat, NEW x \in Nat, NEW y \in Nat, n >= 1, x < n
    PROVE (y * n + x) % n = x /\ (y * n + x) \div n = y
  OBVIOUS
<1> DEFINE a == y * n + x
<1> DEFINE q == a \div n
<1> DEFINE r == a % n
<1>0 a \in Nat /\ y * n \in Nat BY Z3T(20)
<1>1 q \in Int /\ r \in Int /\ 0 <= r /\ r < n /\ a = n * q + r
  <2> HIDE DEF a
  <2> QED BY <1>0, Z3T(20)
<1> HIDE DEF q, r
<1>2 n * (q - y) = x - r
  <2>1 y * n + x = n * q + r BY <1>1 DEF a
  <2>2 n * (q - y) = n * q - n * y BY <1>1, Z3T(20)
  <2>3 n * y = y * n BY Z3T(20)
  <2> QED BY <1>0, <1>1, <2>1, <2>2, <2>3, Z3T(20)
<1>a q \in Int /\ r \in Int /\ 0 <= r /\ r < n BY <1>1
<1>b x - r < n /\ x - r > -n /\ q - y \in Int BY <1>a
<1>3 n * (q - y) < n /\ n * (q - y) > -n /\ q - y \in Int BY <1>2, <1>b
<1>4 q - y = 0 BY <1>3, Between
<1>5 n * 0 = 0 OBVIOUS
<1>6 q = y /\ r = x BY <1>1, <1>2, <1>4, <1>5, Z3T(20)
<1> QED BY <1>6 DEF q, r

ASSUMPTION Sizes == w \in Nat /\ h \in Nat /\ w >= 1 /\ h >= 1

\* Every cell is a column and a row, ...
THEOREM Split == \A p \in Cells :
    /\ Col(p) \in 0..(w - 1) /\ Row(p) \in 0..(h - 1)
    /\ Cell(Col(p), Row(p)) = p
<1> SUFFICES ASSUME NEW p \in Cells
    PROVE Col(p) \in 0..(w - 1) /\ Row(p) \in 0..(h - 1) /\ Cell(Col(p), Row(p)) = p
  OBVIOUS
<1>1 w * h \in Nat BY Sizes, Z3T(20)
<1>2 p \in Nat /\ p < w * h BY <1>1 DEF Cells
<1> DEFINE q == p \div w
<1> DEFINE r == p % w
<1>3 q \in Int /\ r \in Int /\ 0 <= r /\ r < w /\ p = w * q + r BY <1>2, Sizes, Z3T(20)
<1> HIDE DEF q, r
<1>4 q >= 0
  <2> SUFFICES ASSUME q < 0 PROVE FALSE BY <1>3
  <2>1 -q >= 1 /\ -q \in Int BY <1>3
  <2>2 w * (-q) >= w BY <2>1, Sizes, Multiple
  <2>3 w * (-q) = -(w * q) BY <1>3, Sizes, Z3T(20)
  <2> QED BY <2>2, <2>3, <1>2, <1>3, Sizes, Z3T(20)
<1>5 q < h
  <2> SUFFICES ASSUME q >= h PROVE FALSE BY <1>3, Sizes
  <2>1 w * (q - h) >= 0 BY <1>3, Sizes, Z3T(20)
  <2>2 w * (q - h) = w * q - w * h BY <1>3, Sizes, Z3T(20)
  <2> QED BY <2>1, <2>2, <1>1, <1>2, <1>3, Sizes, Z3T(20)
<1>6 q * w = w * q BY <1>3, Sizes, Z3T(20)
<1>7 r \in 0..(w - 1) /\ q \in 0..(h - 1) /\ q * w + r = p
  BY <1>3, <1>4, <1>5, <1>6, Sizes
<1> QED BY <1>7 DEF q, r, Col, Row, Cell

\* ... and every column and row a cell
THEOREM Join == \A x \in 0..(w - 1), y \in 0..(h - 1) :
    Cell(x, y) \in Cells /\ Col(Cell(x, y)) = x /\ Row(Cell(x, y)) = y
<1> SUFFICES ASSUME NEW x \in 0..(w - 1), NEW y \in 0..(h - 1)
    PROVE Cell(x, y) \in Cells /\ Col(Cell(x, y)) = x /\ Row(Cell(x, y)) = y
  OBVIOUS
<1>1 x \in Nat /\ x < w /\ y \in Nat /\ y < h BY Sizes
<1>2 Col(Cell(x, y)) = x /\ Row(Cell(x, y)) = y BY <1>1, Sizes, Apart DEF Col, Row, Cell
<1>3 y * w \in Nat /\ w * h \in Nat BY <1>1, Sizes, Z3T(20)
<1>4 y * w <= (h - 1) * w BY <1>1, Sizes, Z3T(20)
<1>5 (h - 1) * w = w * h - w BY Sizes, Z3T(20)
<1>6 (h - 1) * w \in Int BY Sizes
<1>7 y * w + x <= w * h - 1 BY <1>1, <1>3, <1>4, <1>5, <1>6, Sizes, Z3T(20)
<1>8 y * w + x \in 0..(w * h - 1) BY <1>1, <1>3, <1>7, Sizes
<1> QED BY <1>2, <1>8 DEF Cells, Cell

\* The symmetries of all grids
THEOREM Flips == \A p \in Cells :
    /\ FlipH(p) \in Cells /\ FlipV(p) \in Cells
    /\ FlipH(FlipH(p)) = p /\ FlipV(FlipV(p)) = p
    /\ FlipH(FlipV(p)) = FlipV(FlipH(p))
<1> TAKE p \in Cells
<1> DEFINE x == Col(p)
<1> DEFINE y == Row(p)
<1>1 x \in 0..(w - 1) /\ y \in 0..(h - 1) /\ Cell(x, y) = p BY Split
<1> HIDE DEF x, y
<1>2 w - 1 - x \in 0..(w - 1) /\ h - 1 - y \in 0..(h - 1) BY <1>1, Sizes
<1>3 w - 1 - (w - 1 - x) = x /\ h - 1 - (h - 1 - y) = y BY <1>1, Sizes
<1>4 FlipH(p) = Cell(w - 1 - x, y) BY DEF FlipH, x, y
<1>5 FlipV(p) = Cell(x, h - 1 - y) BY DEF FlipV, x, y
<1>6 FlipH(p) \in Cells /\ Col(FlipH(p)) = w - 1 - x /\ Row(FlipH(p)) = y BY <1>1, <1>2, <1>4, Join
<1>7 FlipV(p) \in Cells /\ Col(FlipV(p)) = x /\ Row(FlipV(p)) = h - 1 - y BY <1>1, <1>2, <1>5, Join
<1>8 FlipH(FlipH(p)) = p BY <1>1, <1>3, <1>6 DEF FlipH
<1>9 FlipV(FlipV(p)) = p BY <1>1, <1>3, <1>7 DEF FlipV
<1>10 FlipH(FlipV(p)) = Cell(w - 1 - x, h - 1 - y) BY <1>7 DEF FlipH
<1>11 FlipV(FlipH(p)) = Cell(w - 1 - x, h - 1 - y) BY <1>6 DEF FlipV
<1> QED BY <1>6, <1>7, <1>8, <1>9, <1>10, <1>11

\* The turns of square ones
THEOREM Turns == w = h => \A p \in Cells :
    /\ TurnCw(p) \in Cells /\ TurnCc(p) \in Cells
    /\ TurnCw(TurnCc(p)) = p /\ TurnCc(TurnCw(p)) = p
    /\ TurnCw(TurnCw(p)) = FlipH(FlipV(p))
    /\ TurnCw(TurnCw(TurnCw(TurnCw(p)))) = p
    /\ TurnCw(FlipH(p)) = FlipH(TurnCc(p))
<1> HAVE w = h
<1> TAKE p \in Cells
<1> DEFINE x == Col(p)
<1> DEFINE y == Row(p)
<1>1 x \in 0..(w - 1) /\ y \in 0..(h - 1) /\ Cell(x, y) = p BY Split
<1> HIDE DEF x, y
<1>2 w - 1 - x \in 0..(w - 1) /\ w - 1 - y \in 0..(w - 1) /\ x \in 0..(h - 1) /\ y \in 0..(w - 1)
     /\ w - 1 - x \in 0..(h - 1) /\ w - 1 - y \in 0..(h - 1)
  BY <1>1, Sizes
<1>3 w - 1 - (w - 1 - x) = x /\ w - 1 - (w - 1 - y) = y BY <1>1, Sizes
<1>cw ASSUME NEW a \in 0..(w - 1), NEW b \in 0..(w - 1)
    PROVE /\ TurnCw(Cell(a, b)) = Cell(w - 1 - b, a)
          /\ TurnCc(Cell(a, b)) = Cell(b, w - 1 - a)
          /\ FlipH(Cell(a, b)) = Cell(w - 1 - a, b)
          /\ FlipV(Cell(a, b)) = Cell(a, w - 1 - b)
  <2>1 b \in 0..(h - 1) OBVIOUS
  <2>2 Col(Cell(a, b)) = a /\ Row(Cell(a, b)) = b BY <2>1, Join
  <2> QED BY <2>2 DEF TurnCw, TurnCc, FlipH, FlipV
<1>4 TurnCw(p) = Cell(w - 1 - y, x) /\ TurnCc(p) = Cell(y, w - 1 - x) BY <1>1, <1>2, <1>cw
<1>5 TurnCw(p) \in Cells /\ TurnCc(p) \in Cells BY <1>2, <1>4, Join
<1>6 TurnCw(TurnCc(p)) = p BY <1>1, <1>2, <1>3, <1>4, <1>cw
<1>7 TurnCc(TurnCw(p)) = p BY <1>1, <1>2, <1>3, <1>4, <1>cw
<1>8 TurnCw(TurnCw(p)) = Cell(w - 1 - x, w - 1 - y) BY <1>1, <1>2, <1>4, <1>cw
<1>9 FlipH(FlipV(p)) = Cell(w - 1 - x, w - 1 - y) BY <1>1, <1>2, <1>cw
<1>10 TurnCw(TurnCw(TurnCw(p))) = Cell(y, w - 1 - x) BY <1>2, <1>3, <1>8, <1>cw
<1>11 TurnCw(TurnCw(TurnCw(TurnCw(p)))) = p BY <1>1, <1>2, <1>3, <1>10, <1>cw
<1>12 TurnCw(FlipH(p)) = Cell(w - 1 - y, w - 1 - x) BY <1>1, <1>2, <1>cw
<1>13 FlipH(TurnCc(p)) = Cell(w - 1 - y, w - 1 - x) BY <1>1, <1>2, <1>4, <1>cw
<1> QED BY <1>5, <1>6, <1>7, <1>8, <1>9, <1>11, <1>12, <1>13
=============================================================================
