---------------------------- MODULE WeaveTrace ----------------------------
(***************************************************************************)
(* Validates recorded runs of many renderings at once against Weave: every *)
(* action ends at the point the machine gets to, with the text it says,    *)
(* and every text handed out is its template's.                            *)
(***************************************************************************)
EXTENDS Weave

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok

(* what an action shows *)
Shows(q, a) ==
  LET t == Do(q, a)
      i == Moved(q, a)
  IN IF a.op = "d" THEN [e |-> "X", i |-> 0, t |-> ""] ELSE Plans[t.inst[i].p][t.inst[i].pos]

RECURSIVE Replay(_, _, _)
Replay(q, h, j) ==
  IF j > Len(h) THEN Right(q)
  ELSE /\ Can(q, h[j])
       /\ LET x == Shows(q, h[j]) IN x.e = h[j].e /\ x.i = h[j].i /\ x.t = h[j].t
       /\ Replay(Do(q, h[j]), h, j + 1)

(* the texts handed out at the end of an instance, whole *)
Handed(r) == \A j \in 1..Len(r.done) : r.done[j].out = Texts[r.done[j].p]

Accepts(r) == r.bad = "" /\ Replay(Start0, r.acts, 1) /\ Handed(r)

TInit == s = Start0 /\ hist = <<>> /\ k \in 1..Len(Trace) /\ ok = "todo"
TNext == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k /\ UNCHANGED <<s, hist>>
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
