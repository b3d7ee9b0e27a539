------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* First calls of escape() racing on the cached scanner.                   *)
(*                                                                         *)
(* Every thread makes Calls calls.  A call reads the cached pointer; while *)
(* that is still "detect" the thread asks the processor (Queries           *)
(* questions, each a separate step), chooses a scanner, publishes it and   *)
(* runs it.  The pointer is read and written with relaxed ordering, so a   *)
(* read may return any value ever published, though never an older one     *)
(* than the same thread already saw (coherence).                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, Calls, Queries, Levels

(* What a processor level reports, as sets of instruction sets *)
Reports == [nocpuid |-> {}, none |-> {}, sse2 |-> {"sse2"},
            avxonly |-> {"sse2", "latersse", "avx"},
            avxnoleaf7 |-> {"sse2", "latersse", "avx"},
            avx2 |-> {"sse2", "latersse", "avx", "avx2"},
            avx2noavx |-> {"sse2", "avx2"}]
ASSUME Levels \subseteq DOMAIN Reports

Needs == [fallback |-> {}, sse2 |-> {"sse2"}, avx2 |-> {"sse2", "avx", "avx2"}]

Choose(level) ==
  LET f == Reports[level]
  IN  IF {"avx", "avx2"} \subseteq f THEN "avx2"
      ELSE IF "sse2" \in f THEN "sse2" ELSE "fallback"

VARIABLES level,
          cell,       \* every value the cached pointer ever had, in order
          seen,       \* per thread: index of the newest value it has read
          pc, left,   \* per thread: where it is, calls still to make
          asked,      \* per thread: questions asked in the current detection
          fun,        \* per thread: the scanner the current call runs
          ran,        \* scanners that were executed
          sched       \* the order in which threads asked their questions

vars == <<level, cell, seen, pc, left, asked, fun, ran, sched>>

Init ==
  /\ level \in Levels
  /\ cell = <<"detect">>
  /\ seen = [t \in Threads |-> 1]
  /\ pc = [t \in Threads |-> "idle"]
  /\ left = [t \in Threads |-> Calls]
  /\ asked = [t \in Threads |-> 0]
  /\ fun = [t \in Threads |-> "none"]
  /\ ran = {} /\ sched = <<>>

Load(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ \E i \in seen[t]..Len(cell) :
       /\ seen' = [seen EXCEPT ![t] = i]
       /\ IF cell[i] = "detect"
          THEN pc' = [pc EXCEPT ![t] = "ask"] /\ UNCHANGED fun
          ELSE pc' = [pc EXCEPT ![t] = "run"] /\ fun' = [fun EXCEPT ![t] = cell[i]]
  /\ asked' = [asked EXCEPT ![t] = 0]
  /\ UNCHANGED <<level, cell, left, ran, sched>>

Ask(t) ==
  /\ pc[t] = "ask" /\ asked[t] < Queries
  /\ asked' = [asked EXCEPT ![t] = @ + 1]
  /\ sched' = Append(sched, t)
  /\ UNCHANGED <<level, cell, seen, pc, left, fun, ran>>

Publish(t) ==
  /\ pc[t] = "ask" /\ asked[t] = Queries
  /\ LET f == Choose(level)
     IN  /\ cell' = Append(cell, f)
         /\ seen' = [seen EXCEPT ![t] = Len(cell) + 1]
         /\ fun' = [fun EXCEPT ![t] = f]
  /\ pc' = [pc EXCEPT ![t] = "run"]
  /\ UNCHANGED <<level, left, asked, ran, sched>>

Run(t) ==
  /\ pc[t] = "run"
  /\ ran' = ran \cup {fun[t]}
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<level, cell, seen, asked, fun, sched>>

Next == \E t \in Threads : Load(t) \/ Ask(t) \/ Publish(t) \/ Run(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Load(t) \/ Ask(t) \/ Publish(t) \/ Run(t))

---------------------------------------------------------------------------
SupportedOnly == \A f \in ran : Needs[f] \subseteq Reports[level]

(* After the first publication every later one agrees with it *)
Stable == \A i, j \in 2..Len(cell) : cell[i] = cell[j]

NeverRunsDetect == \A t \in Threads : pc[t] = "run" => fun[t] # "detect"

AllDone == \A t \in Threads : left[t] = 0 /\ pc[t] = "idle"
EveryCallReturns == <>AllDone

(* The schedules of questions, for replay against the code *)
Emit == (AllDone /\ Len(sched) = Cardinality(Threads) * Queries) => PrintT(<<"SCHED", sched>>)
NoHistory == <<level, cell, seen, pc, left, asked, fun, ran>>
=============================================================================
