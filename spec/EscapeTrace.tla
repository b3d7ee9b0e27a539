---------------------------- MODULE EscapeTrace ----------------------------
(***************************************************************************)
(* Validates recorded escapes.  Each record holds a text and every         *)
(* distinct output the code produced for it, over all placements, buffer   *)
(* states, entry points and processors; each of them must be the escaped   *)
(* form of the text.                                                       *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, ok

Init == k \in 1..Len(Trace) /\ ok = "todo"

Accepts(r) == LET e == Esc(r.t) IN
  /\ r.o # <<>>
  /\ \A i \in 1..Len(r.o) : r.o[i] = e
  /\ r.bad = ""

Next == /\ ok = "todo"
        /\ ok' = IF Accepts(Trace[k]) THEN "yes" ELSE "no"
        /\ k' = k

Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
