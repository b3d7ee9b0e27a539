----------------------------- MODULE BufferTrace -----------------------------
(***************************************************************************)
(* Validates recorded buffer operations.  A record is one operation with   *)
(* the complete state before and after it (every slot), the heap events    *)
(* that happened inside it and whether it panicked.  Records chain: what   *)
(* is before one operation is what was observed after the previous one,    *)
(* starting from empty slots.                                              *)
(***************************************************************************)
EXTENDS Buffer, Json, IOUtils

CONSTANT What      \* "text" or "memory": the group of rules to judge

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

HeapOf(S) == LET B == {S[x].b : x \in Live(S)}
             IN  [id \in B |-> S[CHOOSE x \in Live(S) : S[x].b = id].c]

(* heap events: a allocate, r move to a new block, f release *)
RECURSIVE Replay(_, _, _)
Replay(h, i, H) ==
  IF i > Len(h) THEN [ok |-> TRUE, H |-> H]
  ELSE LET e == h[i] IN
    CASE e.k = "a" -> IF e.id \in DOMAIN H THEN [ok |-> FALSE, H |-> H]
                      ELSE Replay(h, i + 1, e.id :> e.n @@ H)
      [] e.k = "r" -> IF e.old \notin DOMAIN H THEN [ok |-> FALSE, H |-> H]
                      ELSE Replay(h, i + 1,
                             e.id :> e.n @@ [x \in DOMAIN H \ {e.old} |-> H[x]])
      [] e.k = "f" -> IF e.id \notin DOMAIN H \/ (e.id \in DOMAIN H /\ H[e.id] # e.n)
                      THEN [ok |-> FALSE, H |-> H]
                      ELSE Replay(h, i + 1, [x \in DOMAIN H \ {e.id} |-> H[x]])

Project(S) == [x \in DOMAIN S |->
                 [k |-> S[x].k, t |-> S[x].t, n |-> S[x].n, c |-> S[x].c, b |-> S[x].b]]
Text3(S) == [x \in DOMAIN S |-> [k |-> S[x].k, t |-> S[x].t, n |-> S[x].n]]

(* Where capacities and blocks do not matter the slots are compared by text *)
Blind(S) == [x \in DOMAIN S |-> [Nothing EXCEPT !.k = S[x].k, !.t = S[x].t, !.n = S[x].n]]

TextRules(r) ==
  LET S == Blind(r.pre) Q == Blind(r.post) IN
  /\ r.pan = (r.o.op \in Huge)
  /\ TextAfter(r.o, S, Q)
  /\ \A x \in DOMAIN r.post : r.post[x].e = (r.post[x].n = 0)
  /\ \A x \in DOMAIN r.post : r.post[x].real = r.post[x].n
  /\ r.same

MemoryRules(r) ==
  LET S == Project(r.pre) Q == Project(r.post) R == Replay(r.h, 1, HeapOf(S)) IN
  /\ Enabled(r.o, S)
  /\ R.ok /\ r.guard = 0
  /\ WithinCapacity(Q) /\ NoBlock(Q) /\ Owns(Q, R.H) /\ Alone(Q) /\ NoLeak(Q, R.H)
  /\ r.pan = (r.o.op \in Huge)
  /\ RoomAfter(r.o, Q)
  /\ r.o.op \in Huge => Q = S
  /\ \A x \in DOMAIN S : x \notin {r.o.s, r.o.d} => Q[x] = S[x]

Accepts(r) == IF What = "text" THEN TextRules(r) ELSE MemoryRules(r)

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
