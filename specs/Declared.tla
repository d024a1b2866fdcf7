------------------------------ MODULE Declared ------------------------------
(***************************************************************************)
(* Programs that declare storage for grids, and constants (property C29).  *)
(* A program is a sequence of declarations; the compiler accepts it if all *)
(* of them fit.                                                            *)
(***************************************************************************)
EXTENDS BigInt
VARIABLE faults   \* number of declarations so far that don't fit

WordBits == 32
\* A cell for each position
GridFits(w, h, size) == size = w * h
\* A bit for each position and at most a word to spare
BitsFit(w, h, words) ==
    /\ words * WordBits >= w * h
    /\ words * WordBits - w * h <= WordBits
Within(lo, v, hi) == BigLe(lo, v) /\ BigLe(v, hi)
OnGrid(w, h, x, y) == x < w /\ y < h

Fits(d) ==
    CASE d.k = "grid" -> GridFits(d.w, d.h, d.n)
      [] d.k = "bits" -> BitsFit(d.w, d.h, d.n)
      [] d.k = "limits" -> Within(d.lo, d.v, d.hi)
      [] d.k = "place" -> OnGrid(d.w, d.h, d.x, d.y)
      \* The helper macros choose what fits
      [] d.k = "macros" -> TRUE

Declare(d) == faults' = faults + (IF Fits(d) THEN 0 ELSE 1)
Compile(r) == r = (IF faults = 0 THEN "accepted" ELSE "rejected") /\ UNCHANGED faults
=============================================================================
