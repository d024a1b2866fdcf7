---------------------------- MODULE TracePosition ----------------------------
(* Recorded histories of positions against Position. *)
EXTENDS Position, Replay

\* While following directions: target and number of steps left; unused
\* otherwise
VARIABLES target, left

Init ==
    /\ ReplayInit
    /\ xlo = Params.xlo /\ xhi = Params.xhi /\ ylo = Params.ylo /\ yhi = Params.yhi
    /\ x = xlo /\ y = ylo
    /\ heading = 0
    /\ target = <<>> /\ left = BigZero

Calm == UNCHANGED <<target, left>>

\* Put the register somewhere; an input, not an observation
Put(a, b) == Assert(InGrid(a, b), "bad input") /\ GoTo(a, b)

\* Follow the directions to a target in the exact number of steps
StepsTo(a, b, diag) ==
    LET dx == BigAbs(BigSub(a, x))
        dy == BigAbs(BigSub(b, y))
    IN IF diag THEN BigMax(dx, dy) ELSE BigAdd(dx, dy)
Aim(a, b, diag) ==
    /\ Assert(InGrid(a, b), "bad input")
    /\ target' = <<a, b, diag>> /\ left' = StepsTo(a, b, diag) /\ Stay
Follow(d) ==
    /\ left # BigZero /\ left' = BigDec(left) /\ UNCHANGED target
    /\ <<d>> \in TowardSet(target[1], target[2], target[3])
    /\ Move(d, <<"ok", MoveX(d), MoveY(d)>>)
Arrived(r) == left = BigZero /\ r = <<"ok", target[1], target[2]>> /\ Read(r) /\ Calm

Step ==
    \/ On("place") /\ Put(E.a, E.b) /\ Calm
    \/ On("make") /\ Make(E.a, E.b, E.r) /\ Calm
    \/ On("unwrap") /\ MakeUnwrap(E.a, E.b, E.r) /\ Calm
    \/ On("read") /\ Read(E.r) /\ Calm
    \/ On("toindex") /\ ToIndex(E.r) /\ Calm
    \/ On("fromindex") /\ FromIndex(E.i, E.r) /\ Calm
    \/ On("size") /\ Size(E.r) /\ Calm
    \/ On("extent") /\ Extent(E.r) /\ Calm
    \/ On("move") /\ Move(E.d, E.r) /\ Calm
    \/ On("moveok") /\ MoveOk(E.d, E.r) /\ Calm
    \/ On("toward") /\ Toward(E.a, E.b, E.diag, E.r) /\ Calm
    \/ On("aim") /\ Aim(E.a, E.b, E.diag)
    \/ On("follow") /\ Follow(E.d)
    \/ On("arrived") /\ Arrived(E.r)
    \/ On("distance") /\ AskDistance(E.a, E.b, E.r) /\ Calm
    \/ On("inside") /\ AskInside(E.a, E.b, E.c, E.d, E.r) /\ Calm
    \/ On("corner") /\ AskCorner(E.r) /\ Calm
    \/ On("side") /\ AskSide(E.r) /\ Calm
    \/ On("box") /\ AskBox(E.pts, E.r) /\ Calm
    \/ On("named") /\ Named(E.name, E.r) /\ Calm
    \/ On("center") /\ NamedCenter(E.r) /\ Calm
    \/ On("fliph") /\ FlipH(E.r) /\ Calm
    \/ On("flipv") /\ FlipV(E.r) /\ Calm
    \/ On("cw") /\ RotateCW(E.r) /\ Calm
    \/ On("cc") /\ RotateCC(E.r) /\ Calm

Next == \/ More /\ Take /\ Step /\ UNCHANGED heading
        \/ Finished /\ UNCHANGED <<posvars, heading, target, left>>
Spec == Init /\ [][Next]_<<posvars, heading, target, left, sid, idx>>
=============================================================================
