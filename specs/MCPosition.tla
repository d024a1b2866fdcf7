----------------------------- MODULE MCPosition -----------------------------
(* Positions of all small grids, with all operations, and a walker that      *)
(* follows the directions towards a target.                                  *)
EXTENDS Position, TLC
CONSTANTS W, H, Neg      \* grids of up to W x H, starting at 0 or -Neg
Off == -Neg
VARIABLES tx, ty, diag   \* target of the walker
mcvars == <<posvars, tx, ty, diag, heading>>
fixed == <<tx, ty, diag, heading>>

Init ==
    /\ \E ox, oy \in {0, Off}, w \in 1..W, h \in 1..H :
         /\ xlo = BigOf(ox) /\ xhi = BigOf(ox + w - 1)
         /\ ylo = BigOf(oy) /\ yhi = BigOf(oy + h - 1)
         /\ \E a, b, c, d \in (Off)..(W + H) :
              /\ x = BigOf(a) /\ y = BigOf(b) /\ InGrid(x, y)
              /\ tx = BigOf(c) /\ ty = BigOf(d) /\ InGrid(tx, ty)
    /\ diag \in BOOLEAN /\ heading = 0

Answer == TowardSet(tx, ty, diag)
Walk == /\ \E a \in Answer : a # <<>> /\ \E r \in {<<"ok", MoveX(a[1]), MoveY(a[1])>>} : Move(a[1], r)
        /\ UNCHANGED fixed
Next == Walk
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Walk)

\* The walk reaches its target, and the direction vanishes just there
Arrives == <>[](x = tx /\ y = ty)
Measure == LET dx == BigVal(BigAbs(BigSub(tx, x)))
               dy == BigVal(BigAbs(BigSub(ty, y)))
           IN IF diag THEN (IF dx > dy THEN dx ELSE dy) ELSE dx + dy
Progress == [][Measure' = Measure - 1]_<<x, y>>
Nothing == (<<>> \in Answer) <=> (x = tx /\ y = ty)
\* Whatever direction is answered, there is a square to go to
Possible == \A a \in Answer : a # <<>> => InGrid(MoveX(a[1]), MoveY(a[1]))
Unique == diag => \E a \in Answer : Answer = {a}

\* Moves
Back == \A d \in Dirs :
    InGrid(MoveX(d), MoveY(d)) =>
        /\ BigAdd(MoveX(d), BigOf(DX(Opposite(d)))) = x
        /\ BigAdd(MoveY(d), BigOf(DY(Opposite(d)))) = y

\* Indexes
Bijection == ZeroBased =>
    /\ BigIn(Index(x, y), BigZero, BigDec(Cells))
    /\ Index(x, y) = Index(tx, ty) => (x = tx /\ y = ty)
    /\ BigVal(Index(x, y)) = BigVal(y) * BigVal(Width) + BigVal(x)
Surjection == ZeroBased =>
    \A i \in 0..(BigVal(Cells) - 1) :
        \E a \in 0..BigVal(xhi), b \in 0..BigVal(yhi) : Index(BigOf(a), BigOf(b)) = BigOf(i)

\* Symmetries, as functions on points
FH(p) == <<MirrorX(p[1]), p[2]>>
FV(p) == <<p[1], MirrorY(p[2])>>
CW(p) == <<BigSub(yhi, p[2]), p[1]>>
CC(p) == <<p[2], BigSub(xhi, p[1])>>
Here == <<x, y>>
There == <<tx, ty>>
Flips == /\ FH(FH(Here)) = Here /\ FV(FV(Here)) = Here
         /\ FH(FV(Here)) = FV(FH(Here))
         /\ InGrid(FH(Here)[1], FH(Here)[2]) /\ InGrid(FV(Here)[1], FV(Here)[2])
Rotations == (ZeroBased /\ Square) =>
         /\ CC(CW(Here)) = Here /\ CW(CC(Here)) = Here
         /\ CW(CW(CW(CW(Here)))) = Here
         /\ CW(CW(Here)) = FH(FV(Here))
         /\ InGrid(CW(Here)[1], CW(Here)[2])
         /\ FH(CW(FH(Here))) = CC(Here)
D(p, q) == Distance(p[1], p[2], q[1], q[2])
Isometry == /\ D(FH(Here), FH(There)) = D(Here, There)
            /\ D(FV(Here), FV(There)) = D(Here, There)
            /\ (ZeroBased /\ Square) => D(CW(Here), CW(There)) = D(Here, There)
Metric == /\ (D(Here, There) = BigZero) <=> Here = There
          /\ D(Here, There) = D(There, Here)
          /\ \A d \in Dirs : InGrid(MoveX(d), MoveY(d)) =>
                BigLe(D(Here, There), BigAdd(D(<<MoveX(d), MoveY(d)>>, There),
                                             BigOf(IF IsDiag(d) THEN 2 ELSE 1)))
Box == LET pts == <<Here, There, FH(Here)>>
           b == BoundingBox(pts)
       IN /\ b[1] = "ok"
          /\ \A i \in 1..3 : BigIn(pts[i][1], b[2], b[4]) /\ BigIn(pts[i][2], b[3], b[5])
          /\ \E i \in 1..3 : pts[i][1] = b[2]
          /\ \E i \in 1..3 : pts[i][2] = b[3]
          /\ \E i \in 1..3 : pts[i][1] = b[4]
          /\ \E i \in 1..3 : pts[i][2] = b[5]
=============================================================================
