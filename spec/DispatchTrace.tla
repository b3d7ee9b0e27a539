--------------------------- MODULE DispatchTrace ---------------------------
(***************************************************************************)
(* Validates recorded runs of escape() on a processor level: one record    *)
(* per process, with every call's text and output, and the instruction     *)
(* sets the process executed inside escape() (single-stepped).             *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
D == INSTANCE Dispatch WITH Threads <- {}, Calls <- 0, Queries <- 0, Levels <- {},
       level <- "", cell <- <<>>, seen <- <<>>, pc <- <<>>, left <- <<>>, asked <- <<>>,
       fun <- <<>>, ran <- {}, sched <- <<>>

VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

(* instruction sets the level reports; the host's own for a process that   *)
(* never asked                                                             *)
Allowed(r) == IF r.level = "host" THEN {r.host[i] : i \in 1..Len(r.host)}
              ELSE D!Reports[r.level]

Accepts(r) ==
  /\ r.died = 0
  /\ {r.ran[i] : i \in 1..Len(r.ran)} \subseteq Allowed(r)
  /\ \A i \in 1..Len(r.calls) : r.calls[i].o = Esc(r.calls[i].t)
  /\ Len(r.calls) = r.want

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
