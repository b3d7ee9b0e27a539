---------------------------- MODULE CopiesTrace ----------------------------
(***************************************************************************)
(* Validates recorded runs on the wrappers: after every operation, the     *)
(* text that was rendered, how many contents there are, and that showing   *)
(* one showed what it holds.                                               *)
(***************************************************************************)
EXTENDS Text, Integers, Json, IOUtils, TLC
CONSTANT End
C == INSTANCE Copies WITH Handles <- 1..4, Wrappers <- {}, Kinds <- {}, Ns <- {}, Places <- {}, Hows <- {}, MaxOps <- 0, Design <- "laby",
       h <- <<>>, objs <- <<>>, cells <- <<>>, m <- <<>>, mc <- <<>>, hist <- <<>>, said <- "", meant <- "", live <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

RECURSIVE Follows(_, _, _)
Follows(r, s, j) ==
  IF j > Len(r.ops) THEN TRUE
  ELSE LET o == r.ops[j]
           b == r.obs[j]
           t == C!After(s, o) IN
       /\ b.out = C!Said(s, o) /\ b.live = C!Held(t)
       /\ o.op = "show" => b.shown
       /\ Follows(r, t, j + 1)
Accepts(r) == /\ Len(r.obs) = Len(r.ops) /\ ~r.bad
              /\ Follows(r, [m |-> [i \in 1..4 |-> <<>>], c |-> <<>>], 1)

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
