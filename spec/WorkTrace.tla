----------------------------- MODULE WorkTrace -----------------------------
(***************************************************************************)
(* Validates counted work: for growing sizes n, the instructions executed  *)
(* and the bytes rendered.  Where the work is proportional, its rate per   *)
(* byte (of what is given and what is rendered) stays what it is for the   *)
(* smallest size; allowed are a factor of two and a half and four          *)
(* instructions a byte, which covers what comes with large blocks (paging, *)
(* other copying routines, longer numbers).  Work that is quadratic grows  *)
(* its rate with n: by 32 over the sizes used.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"
Rate(r, j) == r.work[j] \div ((r.n[j] + r.out[j]) \div 64)
Accepts(r) ==
  /\ Len(r.n) >= 3 /\ Len(r.work) = Len(r.n) /\ Len(r.out) = Len(r.n)
  /\ r.n[Len(r.n)] >= 32 * r.n[1]
  /\ \A j \in 2..Len(r.n) : Rate(r, j) <= ((5 * Rate(r, 1)) \div 2) + 256
Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
