------------------------------- MODULE Growth -------------------------------
(***************************************************************************)
(* Allocation while markup is built and rendered.  Building steps allocate *)
(* only where an embedded expression does; rendering only asks for room in *)
(* the output, whose capacity at least doubles whenever it does not        *)
(* suffice.  Then rendering allocates at most once and moves the output    *)
(* at most logarithmically often.  A buffer that is cleared keeps what room it has: the same again  *)
(* is written without asking for more (history is kept when Remember > 0). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxLen, Sizes, Starts, MaxExprs, Remember

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
(* the bound used on the code: growths of an output of n bytes *)
GrowBound(n) == Log2(n + 1) + 2

VARIABLES phase, own, made, start, len, cap, allocs, grows, hist, before
vars == <<phase, own, made, start, len, cap, allocs, grows, hist, before>>

Init == /\ phase = "build" /\ own = 0 /\ made = 0 /\ len = 0 /\ allocs = 0 /\ grows = 0
        /\ start \in Starts /\ cap = start /\ hist = <<>> /\ before = 0

(* an embedded expression, allocating or not, is evaluated *)
Expr == phase = "build" /\ made < MaxExprs /\ made' = made + 1
        /\ \E a \in {0, 1} : own' = own + a /\ allocs' = allocs + a
        /\ UNCHANGED <<phase, start, len, cap, grows, hist, before>>
Built == phase = "build" /\ phase' = "render" /\ UNCHANGED <<own, made, start, len, cap, allocs, grows, hist, before>>

(* n bytes are written; room is asked for first, any amount of it at least *)
(* n and possibly more (scalars ask for the longest of their kind)         *)
Put(n, ask) ==
  /\ len' = len + n
  /\ IF len + ask <= cap THEN UNCHANGED <<cap, allocs, grows>>
     ELSE /\ \E c \in {2 * cap, cap + ask, 2 * cap + ask} :
               c >= 2 * cap /\ c >= len + ask /\ cap' = c
          /\ IF cap = 0 THEN allocs' = allocs + 1 /\ grows' = grows
             ELSE grows' = grows + 1 /\ allocs' = allocs
Write(n, ask) ==
  /\ phase = "render" /\ len + n <= MaxLen /\ ask >= n
  /\ Remember > 0 => Len(hist) < Remember
  /\ Put(n, ask)
  /\ hist' = (IF Remember > 0 THEN Append(hist, <<n, ask>>) ELSE hist)
  /\ UNCHANGED <<phase, own, made, start, before>>
(* cleared, and then the same written again                                *)
Clear == /\ Remember > 0 /\ phase = "render" /\ phase' = "again" /\ len' = 0 /\ before' = allocs + grows
         /\ UNCHANGED <<own, made, start, cap, allocs, grows, hist>>
Again == /\ phase = "again" /\ hist # <<>> /\ Put(hist[1][1], hist[1][2]) /\ hist' = Tail(hist)
         /\ UNCHANGED <<phase, own, made, start, before>>
Next == Clear \/ Again \/ Expr \/ Built \/ \E n \in Sizes : \E x \in {0, 3} : Write(n, n + x)
Spec == Init /\ [][Next]_vars

BuildsNothing == phase = "build" => allocs = own
AtMostOne == allocs - own <= (IF start = 0 THEN 1 ELSE 0)
Logarithmic == phase # "again" => grows <= GrowBound(len)
Doubles == grows > 0 /\ start > 0 => cap >= start * 2 ^ grows
EnoughRoom == start >= MaxLen + 3 => allocs = own /\ grows = 0
KeepsRoom == phase = "again" => allocs + grows = before
=============================================================================
