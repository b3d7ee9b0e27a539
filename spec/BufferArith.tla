----------------------------- MODULE BufferArith -----------------------------
(***************************************************************************)
(* The capacity arithmetic of the buffer over machine integers: sums and   *)
(* doublings wrap modulo 2^64, as they do in a release build.  Checked by  *)
(* Apalache as an inductive invariant, so for every length, capacity and   *)
(* request.                                                                *)
(***************************************************************************)
EXTENDS Integers

TwoTo64 == 18446744073709551616
IsizeMax == 9223372036854775807

VARIABLES
  \* @type: Int;
  len,
  \* @type: Int;
  cap,
  \* @type: Str;
  res,
  \* @type: Int;
  asked

\* @type: (Int) => Int;
Wrap(x) == IF x >= TwoTo64 THEN x - TwoTo64 ELSE IF x < 0 THEN x + TwoTo64 ELSE x
\* @type: (Int, Int) => Int;
Max2(a, b) == IF a > b THEN a ELSE b

Machine == 0..(TwoTo64 - 1)

Init == len = 0 /\ cap = 0 /\ res = "none" /\ asked = 0

(* reserve_internal followed by the allocation, which refuses more than    *)
(* isize::MAX                                                              *)
GrowTo(size) ==
  LET new == Max2(Wrap(cap * 2), Wrap(cap + size)) IN
  IF new > 0 /\ new <= IsizeMax
  THEN cap' = new /\ res' = "ok"
  ELSE cap' = cap /\ res' = "panic"

Reserve ==
  \E size \in Machine :
    /\ asked' = size /\ len' = len
    /\ IF size <= Wrap(cap - len) THEN cap' = cap /\ res' = "ok"
       ELSE IF size > IsizeMax THEN cap' = cap /\ res' = "panic"
       ELSE GrowTo(size)

(* appending: slices are never longer than isize::MAX *)
Append ==
  \E size \in 0..IsizeMax, wrote \in 0..IsizeMax :
    /\ wrote <= size
    /\ asked' = size
    /\ IF Wrap(len + size) <= cap
       THEN cap' = cap /\ res' = "ok" /\ len' = len + wrote
       ELSE LET new == Max2(Wrap(cap * 2), Wrap(cap + size)) IN
            IF new > 0 /\ new <= IsizeMax
            THEN cap' = new /\ res' = "ok" /\ len' = len + wrote
            ELSE cap' = cap /\ res' = "panic" /\ len' = len

Clear == len' = 0 /\ cap' = cap /\ res' = "none" /\ asked' = 0

WithCapacity ==
  \E n \in Machine :
    /\ asked' = n /\ len' = 0
    /\ IF n > IsizeMax THEN cap' = 0 /\ res' = "panic" ELSE cap' = n /\ res' = "ok"

Next == Reserve \/ Append \/ Clear \/ WithCapacity

Inv == /\ 0 <= len /\ len <= cap /\ cap <= IsizeMax
       /\ res \in {"none", "ok", "panic"} /\ asked \in Machine

(* a start in any state of the invariant *)
IndInit == /\ len \in 0..IsizeMax /\ cap \in 0..IsizeMax
           /\ res \in {"none", "ok", "panic"} /\ asked \in Machine
           /\ len <= cap

(* what each step promises *)
RoomOrPanic ==
  /\ res' = "panic" => (len' = len /\ cap' = cap) \/ (len' = 0 /\ cap' = 0)
  /\ (res' = "ok" /\ len' = len) => (cap' - len' >= asked' \/ cap' - len >= asked')
  /\ asked' > IsizeMax => res' = "panic"
=============================================================================
