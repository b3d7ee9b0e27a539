----------------------------- MODULE PlaceTrace -----------------------------
(***************************************************************************)
(* Validates places recorded from compiled templates: every expression     *)
(* that ran reported the line and column where it was written (What =      *)
(* "runs"); the compiler reported a mistake where it is, and nowhere else  *)
(* ("mistake"), and a malformed call inside that call ("flaw").            *)
(***************************************************************************)
EXTENDS Text, Integers, FiniteSets, Sequences, TLC, Json, IOUtils
P == INSTANCE Place WITH Leaves <- {}, Frames <- {}, Gaps <- {}, MaxItems <- 0, MaxDepth <- 0, Design <- "keep",
                         stack <- <<>>, size <- 0, tree <- <<>>, phase <- "", toks <- <<>>, cur <- <<>>, text <- "",
                         gaps <- <<>>, at <- <<>>, todo <- <<>>, gen <- <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

RECURSIVE Places(_, _, _, _)
Places(toks, gaps, j, c) ==
  IF j > Len(toks) THEN {}
  ELSE LET d == P!Move(c, gaps[j]) IN
       (IF toks[j].id = 0 THEN {} ELSE {<<toks[j].id, d[1], d[2] + toks[j].off>>})
       \cup Places(toks, gaps, j + 1, P!Put(d, toks[j].t))
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Set(q) == {q[j] : j \in 1..Len(q)}

Accepts(r) ==
  LET all == Places(P!Toks(r.tree), r.gaps, 1, <<1, 1>>)
      seen == {<<s[1], s[2], s[3]>> : s \in Set(r.seen)} IN
  CASE r.what = "runs" -> seen = {p \in all : p[1] \in P!Runs(r.tree)}
    [] r.what = "mistake" ->
         LET f == CHOOSE id \in P!Fault(r.tree) : TRUE
             p == CHOOSE p \in all : p[1] = f IN
         seen # {} /\ \A s \in seen : s[2] = p[2] /\ s[3] = p[3]
    [] r.what = "flaw" ->
         LET ids == P!Fault(r.tree)
             lo == CHOOSE p \in all : p[1] \in ids /\ \A i \in ids : i >= p[1]
             hi == CHOOSE p \in all : p[1] \in ids /\ \A i \in ids : i <= p[1] IN
         seen # {} /\ \A s \in seen : Before(<<lo[2], lo[3]>>, <<s[2], s[3]>>) /\ Before(<<s[2], s[3]>>, <<hi[2], hi[3]>>)

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
