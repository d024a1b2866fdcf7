------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Common part of the trace specifications.                                *)
(*                                                                         *)
(* The file named by the environment variable TRACE has one recorded       *)
(* session per line: [k |-> kind, p |-> parameters, ev |-> events].  The   *)
(* initial states are the starts of all sessions (so that TLC's workers    *)
(* share them), and each step consumes one event through an action of the  *)
(* specification.  An event that no action explains leaves the session     *)
(* without a successor state, which TLC reports as a deadlock; only        *)
(* sessions that were consumed to the end may stutter.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid,   \* session
          idx    \* number of events of it that were consumed

Params == Sessions[sid].p
Events == Sessions[sid].ev
E == Sessions[sid].ev[idx + 1]

ReplayInit == sid \in DOMAIN Sessions /\ idx = 0
More == idx < Len(Events)
Take == idx' = idx + 1 /\ UNCHANGED sid
On(op) == E.op = op
Finished == idx = Len(Events) /\ UNCHANGED <<sid, idx>>
=============================================================================
