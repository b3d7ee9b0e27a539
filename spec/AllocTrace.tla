----------------------------- MODULE AllocTrace -----------------------------
(***************************************************************************)
(* Validates the allocations counted while templates were built and        *)
(* rendered.  A record is a template (a tree, or a fixed program that      *)
(* allocates nothing of its own), the values whose expressions allocate,   *)
(* and per output buffer what was counted:                                 *)
(*   ca while building, ra new blocks and rg moves while rendering,        *)
(*   len bytes rendered; mode 2: the buffer had room, mode 4: the same was *)
(*   rendered into the buffer before, then it was cleared                  *)
(***************************************************************************)
EXTENDS Markup, Json, IOUtils, TLC
G == INSTANCE Growth WITH MaxLen <- 0, Sizes <- {}, Starts <- {}, MaxExprs <- 0, phase <- "", own <- 0,
       made <- 0, start <- 0, len <- 0, cap <- 0, allocs <- 0, grows <- 0,
       Remember <- 0, hist <- <<>>, before <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

Room == 1048576     \* what the buffer of mode 2 is made with
Own(r) == IF r.fixed THEN r.own
          ELSE Len(SelectSeq(ConAll(r), LAMBDA x : x.e = "E" /\ \E j \in 1..Len(r.al) : r.al[j] = x.i))
Counted(r, c, own) ==
  IF r.kind = "sep"
  THEN /\ c.ca = own
       /\ IF (c.mode = 2 /\ c.len + 64 <= Room) \/ c.mode = 4 THEN c.ra = 0 /\ c.rg = 0
          ELSE c.ra <= 1 /\ c.rg <= G!GrowBound(c.len)
  ELSE /\ c.ra <= 1 + own /\ c.rg <= G!GrowBound(c.len)
Accepts(r) == LET own == Own(r) IN r.m # <<>> /\ \A j \in 1..Len(r.m) : Counted(r, r.m[j], own)

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
