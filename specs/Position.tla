------------------------------ MODULE Position ------------------------------
(***************************************************************************)
(* Positions (properties C03, C04, C07, C10, C11, C12).                    *)
(*                                                                         *)
(* The grid is the rectangle of the coordinates xlo..xhi and ylo..yhi;     *)
(* <<x, y>> is a position register.  Coordinates may have any size and the *)
(* actions carry the outcome of the call.  Some operations are only        *)
(* meaningful for coordinates that start at zero (ZeroBased).              *)
(***************************************************************************)
EXTENDS BigInt, Compass

VARIABLES xlo, xhi, ylo, yhi, x, y
gridvars == <<xlo, xhi, ylo, yhi>>
posvars == <<gridvars, x, y>>

InGrid(a, b) == BigIn(a, xlo, xhi) /\ BigIn(b, ylo, yhi)
ZeroBased == xlo = BigZero /\ ylo = BigZero
Width == BigInc(xhi)
Height == BigInc(yhi)
Square == xlo = ylo /\ xhi = yhi

GoTo(a, b) == x' = a /\ y' = b /\ UNCHANGED gridvars
Stay == UNCHANGED posvars

(* Construction and reading (C03) *)

Make(a, b, r) ==
    IF InGrid(a, b)
    THEN r = <<"ok", a, b>> /\ GoTo(a, b)
    ELSE r = <<"err", "OutOfBounds">> /\ Stay
MakeUnwrap(a, b, r) ==
    IF InGrid(a, b)
    THEN r = <<"ok", a, b>> /\ GoTo(a, b)
    ELSE r = <<"panic">> /\ Stay
Read(r) == r = <<"ok", x, y>> /\ Stay

(* Indexes (C04) *)

Index(a, b) == BigAdd(BigMul(b, Width), a)
Cells == BigMul(Width, Height)
ToIndex(r) == ZeroBased /\ r = <<"ok", Index(x, y)>> /\ Stay
FromIndex(i, r) ==
    /\ ZeroBased
    /\ IF BigLt(i, Cells)
       THEN /\ r[1] = "ok" /\ Len(r) = 3
            /\ InGrid(r[2], r[3]) /\ Index(r[2], r[3]) = i
            /\ GoTo(r[2], r[3])
       ELSE r = <<"err", "OutOfBounds">> /\ Stay
\* Width, height and number of positions
Size(r) == ZeroBased /\ r = <<"ok", Width, Height, Cells>> /\ Stay
\* How many different coordinates there are; they may start anywhere
Extent(r) == r = <<"ok", BigInc(BigSub(xhi, xlo)), BigInc(BigSub(yhi, ylo))>> /\ Stay

(* Movement (C07) *)

MoveX(d) == BigAdd(x, BigOf(DX(d)))
MoveY(d) == BigAdd(y, BigOf(DY(d)))
Move(d, r) ==
    IF InGrid(MoveX(d), MoveY(d))
    THEN r = <<"ok", MoveX(d), MoveY(d)>> /\ GoTo(MoveX(d), MoveY(d))
    ELSE r = <<"err", "OutOfBounds">> /\ Stay
\* The same as an optional value
MoveOk(d, r) ==
    IF InGrid(MoveX(d), MoveY(d))
    THEN r = <<"some", MoveX(d), MoveY(d)>> /\ GoTo(MoveX(d), MoveY(d))
    ELSE r = <<"none">> /\ Stay

(* Direction towards another position (C11) *)

Sign(a) == a[1]
\* The possible answers, each <<>> or <<direction>>
TowardSet(tx, ty, diag) ==
    LET sx == Sign(BigSub(tx, x))
        sy == Sign(BigSub(ty, y))
    IN IF sx = 0 /\ sy = 0 THEN {<<>>}
       ELSE IF diag THEN { <<d>> : d \in { e \in Dirs : DX(e) = sx /\ DY(e) = sy } }
       ELSE { <<d>> : d \in { e \in Considered(FALSE) :
                                \/ DX(e) # 0 /\ DX(e) = sx
                                \/ DY(e) # 0 /\ DY(e) = sy } }
Toward(tx, ty, diag, r) == InGrid(tx, ty) /\ r \in TowardSet(tx, ty, diag) /\ Stay

(* Geometry (C10) *)

Distance(ax, ay, bx, by) == BigAdd(BigAbs(BigSub(ax, bx)), BigAbs(BigSub(ay, by)))
\* Larger ones than can be told are told as the largest one
AskDistance(a, b, r) == r = <<"ok", BigMin(U64Max, Distance(x, y, a, b))>> /\ Stay
Between(v, a, b) == BigIn(v, BigMin(a, b), BigMax(a, b))
AskInside(ax, ay, bx, by, r) == r = (Between(x, ax, bx) /\ Between(y, ay, by)) /\ Stay
ExtremeX == x = xlo \/ x = xhi
ExtremeY == y = ylo \/ y = yhi
AskCorner(r) == r = (ExtremeX /\ ExtremeY) /\ Stay
AskSide(r) == r = (ExtremeX \/ ExtremeY) /\ Stay

\* Bounding box of a sequence of points <<a, b>>
RECURSIVE FoldBox(_, _, _)
FoldBox(pts, i, box) ==
    IF i > Len(pts) THEN box
    ELSE FoldBox(pts, i + 1, <<BigMin(box[1], pts[i][1]), BigMin(box[2], pts[i][2]),
                               BigMax(box[3], pts[i][1]), BigMax(box[4], pts[i][2])>>)
BoundingBox(pts) ==
    IF pts = <<>> THEN <<"err", "Empty">>
    ELSE LET p == pts[1] IN <<"ok">> \o FoldBox(pts, 2, <<p[1], p[2], p[1], p[2]>>)
AskBox(pts, r) == r = BoundingBox(pts) /\ Stay

\* Named positions
Named(name, r) ==
    /\ r = <<"ok">> \o
         CASE name \in {"FIRST", "TOP_LEFT", "first"} -> <<xlo, ylo>>
           [] name \in {"LAST", "BOTTOM_RIGHT", "last"} -> <<xhi, yhi>>
           [] name = "TOP_RIGHT" -> <<xhi, ylo>>
           [] name = "BOTTOM_LEFT" -> <<xlo, yhi>>
           [] name = "DEFAULT" -> <<xlo, ylo>>
    /\ GoTo(r[2], r[3])
\* The center, rounded towards the origin
HalfOf(h, m) == LET rest == BigSub(m, BigMul(BigOf(2), h)) IN rest \in {BigZero, BigOne}
NamedCenter(r) ==
    /\ ZeroBased /\ r[1] = "ok" /\ Len(r) = 3
    /\ HalfOf(r[2], xhi) /\ HalfOf(r[3], yhi)
    /\ GoTo(r[2], r[3])

(* Symmetries (C12) *)

MirrorX(a) == BigSub(BigAdd(xlo, xhi), a)
MirrorY(b) == BigSub(BigAdd(ylo, yhi), b)
FlipH(r) == r = <<"ok", MirrorX(x), y>> /\ GoTo(MirrorX(x), y)
FlipV(r) == r = <<"ok", x, MirrorY(y)>> /\ GoTo(x, MirrorY(y))
RotateCW(r) == /\ ZeroBased /\ Square
               /\ r = <<"ok", BigSub(yhi, y), x>> /\ GoTo(BigSub(yhi, y), x)
RotateCC(r) == /\ ZeroBased /\ Square
               /\ r = <<"ok", y, BigSub(xhi, x)>> /\ GoTo(y, BigSub(xhi, x))

Safe == InGrid(x, y)
=============================================================================
