------------------------------ MODULE FmtTrace ------------------------------
(***************************************************************************)
(* Validates formatted values: what rendering produced against the text    *)
(* the same value formats to (computed here from its pieces, or recorded   *)
(* from formatting it to a string).                                        *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils, TLC
F == INSTANCE Fmt WITH Texts <- {}, Pads <- {}, MaxPieces <- 0, MaxDepth <- 0, pieces <- <<>>,
       writes <- <<>>, next <- 0, out <- "", failed <- FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

Wanted(r) == IF r.pieces = <<>> THEN r.plain ELSE F!Plain(F!Written(r.pieces))
Accepts(r) ==
  /\ r.outs # <<>>
  /\ \A i \in 1..Len(r.outs) : r.outs[i] = Join(r.frame, Esc(Wanted(r)))
  /\ r.pieces # <<>> => (r.plain = "?" \/ r.plain = Wanted(r))

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
