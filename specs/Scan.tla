-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* An iterator over the contents of a grid, which may be consumed by any   *)
(* of the methods of iterators: a SeqSource, `scan` being what is left and *)
(* `got` the last answer.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES scan, got
scanvars == <<scan, got>>
LOCAL Source == INSTANCE SeqSource WITH rem <- scan, out <- got, Initial <- {}

ScanInit == scan = <<>> /\ got = <<>>
ScanOver(items) == scan' = items /\ got' = <<>>
\* Numbers above those of the specification are more than there is to skip
ScanNth(n, r) == Source!FrontNth(n) /\ got' = r
ScanNthBack(n, r) == Source!BackNth(n) /\ got' = r
ScanAll(r) == Source!All(r)
ScanAllBack(r) == Source!AllBack(r)
ScanCount(r) == Source!Count(r)
ScanLast(r) == Source!LastOne(r)
=============================================================================
