---------------------------- MODULE EscapeScan ----------------------------
(***************************************************************************)
(* The scanners behind escape(), one action per step of the code:          *)
(*   small     byte by byte, for texts shorter than the small limit        *)
(*   fallback  one unaligned word, aligned words, then byte by byte        *)
(*   sse       vectors of VS bytes, the last one overlapping               *)
(*   avx       vectors of VL bytes; texts of VS..VL-1 bytes take two       *)
(*             possibly overlapping vectors of VS bytes                    *)
(* A text is a sequence over "p" (ordinary), "s" (special) and "k" (looks  *)
(* special to the vector comparison but is not, like '#').  The output is  *)
(* the sequence of positions written, negative when written escaped.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS VS,        \* short vector and small limit (16 in the code)
          VL,        \* long vector (32)
          W,         \* machine word (8)
          Texts,     \* the texts explored
          Aligns     \* placements modulo the word

ASSUME VS > W /\ VL > VS

Engines == {"small", "fallback", "sse", "avx"}

VARIABLES text, eng, align,
          start,     \* first position not yet written
          ptr,       \* next position to scan
          mask,      \* positions the current vector reports, ascending
          base,      \* position the current mask counts from
          pc, out, reads

vars == <<text, eng, align, start, ptr, mask, base, pc, out, reads>>

N == Len(text)
Hit(c) == c \in {"s", "k"}
Written(from, to) == [i \in 1..(IF to > from THEN to - from ELSE 0) |-> from + i - 1]

Expected(t) == [i \in 1..Len(t) |-> IF t[i] = "s" THEN -i ELSE i]

(* positions lo..hi of the text that the vector comparison reports *)
Report(lo, hi) == {i \in lo..hi : Hit(text[i])}

Init ==
  /\ text \in Texts
  /\ align \in Aligns
  /\ eng \in IF Len(text) < VS THEN {"small"} ELSE Engines \ {"small"}
  /\ start = 1 /\ ptr = 1 /\ mask = {} /\ base = 1 /\ out = <<>> /\ reads = {}
  /\ pc = CASE eng = "small" -> "bytes"
            [] eng = "fallback" -> "word0"
            [] eng = "sse" -> "vec"
            [] eng = "avx" -> IF Len(text) < VL THEN "pair1" ELSE "vec"

Fixed == UNCHANGED <<text, eng, align>>

(* Flush the pending ordinary run, then the special character at i *)
EmitAt(i) == /\ out' = out \o Written(start, i) \o <<-i>>
             /\ start' = i + 1

(* byte by byte up to position `to', inclusive *)
RECURSIVE Walk(_, _, _, _)
Walk(i, to, st, o) ==
  IF i > to THEN [st |-> st, o |-> o]
  ELSE IF text[i] = "s"
       THEN Walk(i + 1, to, i + 1, o \o Written(st, i) \o <<-i>>)
       ELSE Walk(i + 1, to, st, o)

Proceed(from, to) == LET w == Walk(from, to, start, out)
                     IN  out' = w.o /\ start' = w.st

(* small: one character per step *)
Bytes ==
  /\ pc = "bytes"
  /\ IF ptr > N THEN pc' = "flush" /\ UNCHANGED <<start, ptr, out, reads>>
     ELSE /\ reads' = {ptr}
          /\ IF text[ptr] = "s" THEN EmitAt(ptr) ELSE UNCHANGED <<start, out>>
          /\ ptr' = ptr + 1 /\ pc' = pc
  /\ UNCHANGED <<mask, base>> /\ Fixed

(* fallback *)
FirstAligned == 1 + W - align
Word0 ==
  /\ pc = "word0"
  /\ reads' = 1..W
  /\ IF \E i \in 1..W : Hit(text[i])
     THEN Proceed(1, FirstAligned - 1) ELSE UNCHANGED <<out, start>>
  /\ ptr' = FirstAligned /\ pc' = "word"
  /\ UNCHANGED <<mask, base>> /\ Fixed

WordN ==
  /\ pc = "word" /\ ptr + W - 1 <= N
  /\ reads' = ptr..(ptr + W - 1)
  /\ IF \E i \in ptr..(ptr + W - 1) : Hit(text[i])
     THEN Proceed(ptr, ptr + W - 1) ELSE UNCHANGED <<out, start>>
  /\ ptr' = ptr + W /\ pc' = pc
  /\ UNCHANGED <<mask, base>> /\ Fixed

WordTail ==
  /\ pc = "word" /\ ptr + W - 1 > N
  /\ reads' = ptr..N
  /\ Proceed(ptr, N)
  /\ ptr' = N + 1 /\ pc' = "flush"
  /\ UNCHANGED <<mask, base>> /\ Fixed

(* sse and avx *)
V == IF eng = "avx" THEN VL ELSE VS

Load ==
  /\ pc = "vec" /\ mask = {}
  /\ IF ptr + V - 1 <= N
     THEN /\ reads' = ptr..(ptr + V - 1)
          /\ mask' = Report(ptr, ptr + V - 1)
          /\ base' = ptr /\ ptr' = ptr + V /\ pc' = pc
     ELSE IF ptr <= N
     THEN \* the last vector reaches back; positions already seen are dropped
          /\ reads' = (N - V + 1)..N
          /\ mask' = {i \in Report(N - V + 1, N) : i >= ptr}
          /\ base' = ptr /\ ptr' = N + 1 /\ pc' = pc
     ELSE /\ pc' = "flush" /\ UNCHANGED <<reads, mask, base, ptr>>
  /\ UNCHANGED <<start, out>> /\ Fixed

Bit ==
  /\ mask # {}
  /\ LET i == CHOOSE x \in mask : \A y \in mask : x <= y
     IN  /\ mask' = mask \ {i}
         /\ IF text[i] = "s" THEN EmitAt(i) ELSE UNCHANGED <<start, out>>
  /\ UNCHANGED <<ptr, base, pc, reads>> /\ Fixed

Pair1 ==
  /\ pc = "pair1" /\ mask = {}
  /\ reads' = 1..VS /\ mask' = Report(1, VS) /\ base' = 1
  /\ ptr' = VS + 1 /\ pc' = IF N = VS THEN "flush" ELSE "pair2"
  /\ UNCHANGED <<start, out>> /\ Fixed

Pair2 ==
  /\ pc = "pair2" /\ mask = {}
  /\ reads' = (N - VS + 1)..N
  /\ mask' = {i \in Report(N - VS + 1, N) : i >= ptr}
  /\ base' = ptr /\ ptr' = N + 1 /\ pc' = "flush"
  /\ UNCHANGED <<start, out>> /\ Fixed

Flush ==
  /\ pc = "flush" /\ mask = {}
  /\ out' = out \o Written(start, N + 1)
  /\ start' = N + 1 /\ pc' = "done" /\ reads' = {}
  /\ UNCHANGED <<ptr, mask, base>> /\ Fixed

Next == Bytes \/ Word0 \/ WordN \/ WordTail \/ Load \/ Bit \/ Pair1 \/ Pair2 \/ Flush
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
TypeOK == /\ pc \in {"bytes", "word0", "word", "vec", "pair1", "pair2", "flush", "done"}
          /\ start \in 1..(N + 1) /\ ptr \in 1..(N + W + 1)

(* Everything written so far is the escaped form of a prefix, once each *)
Prefix == /\ Len(out) = start - 1
          /\ \A i \in 1..Len(out) : out[i] = Expected(text)[i]

(* No scanner reads outside the text *)
InBounds == reads \subseteq 1..N

(* nothing special is left behind the scan *)
NothingSkipped == \A i \in start..(ptr - 1) : i <= N /\ i \notin mask => text[i] # "s"

Done == pc = "done" => out = Expected(text)

Terminates == <>(pc = "done")
=============================================================================
