---------------------------- MODULE ReadingTrace ----------------------------
(* Judges rendered templates by what is read back from them. *)
EXTENDS Reading, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"
Accepts(r) == LET want == DocAll(r)
                  outs == {r.obs[j].out : j \in 1..Len(r.obs)} IN
  /\ Len(r.obs) >= 1
  /\ \A j \in 1..Len(r.obs) : r.obs[j].pan = "" /\ r.obs[j].pre /\ r.obs[j].utf8
  /\ \A o \in outs : Read(o) = want
Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
