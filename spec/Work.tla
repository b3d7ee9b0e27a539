-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* How much work a rendering does.  Pieces of text arrive one by one; each *)
(* is scanned and copied behind what is there; when the room runs out the  *)
(* buffer moves to a larger one, copying everything.  Invariant: the work  *)
(* is at most a constant times what was written.  Designs that look at the *)
(* output again, or at the rest of the input, or grow by a fixed amount or *)
(* exactly, are refuted.                                                   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Grow,        \* "double", "fixed" or "exact"
          Scan,        \* "once", "again" (all that is written so far), "ahead" (all that is still to come)
          MaxOut, Pieces
VARIABLES out, cap, work, left
vars == <<out, cap, work, left>>
Max(a, b) == IF a > b THEN a ELSE b
Init == out = 0 /\ cap = 0 /\ work = 0 /\ left = MaxOut
Write == \E n \in Pieces :
  /\ n <= left
  /\ LET full == out + n > cap
         cost == n + (IF full THEN out ELSE 0)
                 + (CASE Scan = "once" -> n [] Scan = "again" -> out + n [] Scan = "ahead" -> left) IN
     /\ work' = work + cost
     /\ cap' = IF ~full THEN cap
               ELSE CASE Grow = "double" -> Max(2 * cap, out + n)
                      [] Grow = "fixed" -> Max(cap + 4, out + n)
                      [] Grow = "exact" -> out + n
  /\ out' = out + n /\ left' = left - n
Next == Write
Spec == Init /\ [][Next]_vars
Linear == work <= 5 * out + 5
=============================================================================
