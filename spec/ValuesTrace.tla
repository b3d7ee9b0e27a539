---------------------------- MODULE ValuesTrace ----------------------------
(* Validates the rendered texts of scalars and wrappers. *)
EXTENDS Values, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

Each(outs, P(_)) == outs # <<>> /\ \A i \in 1..Len(outs) : P(outs[i])
Accepts(r) ==
  CASE r.k = "int"   -> Each(r.outs, LAMBDA t : t = IntText(r.neg, r.hex))
    [] r.k = "run"   -> \A j \in 1..Len(r.all) : Each(r.all[j], LAMBDA t : t = ShowInt(r.lo + j - 1))
    [] r.k = "float" -> Each(r.outs, LAMBDA t : FloatTextOk(r.ty, r.bits, t))
    [] r.k = "chars" -> LET cs == Scalars(r.lo, r.hi) IN
                        Len(r.all) = Len(cs)
                        /\ \A j \in 1..Len(cs) : Each(r.all[j], LAMBDA t : t = CharText(cs[j]))
    [] r.k = "term"  -> Each(r.outs, LAMBDA t : t = Esc(TermText(r.term)))

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
