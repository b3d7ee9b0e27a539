------------------------------- MODULE Weave -------------------------------
(***************************************************************************)
(* Many renderings at once.  A pool of templates; each may be begun any    *)
(* number of times (an instance), on any thread, also while that thread is *)
(* in the middle of another one (a value that renders something itself),   *)
(* and on a thread that is ending; a template that was built may be        *)
(* rendered on another thread.  At every point where a template runs user  *)
(* code (an expression evaluated, a value rendered, an iterator asked) the *)
(* others may go on, or it may fail there.                                 *)
(*                                                                         *)
(* Where an instance's text is kept is a parameter (Design): each has its  *)
(* own; one per thread; one per process; taken from the thread while in    *)
(* use; taken, cleared only when handed back.  Independent says every text *)
(* is the one its template has alone.  Only the first and the fourth keep  *)
(* it (the check makes sure that the schedules tell them apart).           *)
(***************************************************************************)
EXTENDS Markup, Json, IOUtils, TLC, FiniteSets

CONSTANTS Threads, MaxInst, MaxOps, Design, Fail,
          Sample   \* TRUE: a template to begin is drawn at random (for simulation)

Pool == ndJsonDeserialize(IOEnv.POOL)

(* the points where user code runs, each with the text since the one before; text is seen only      *)
(* where there is a buffer to look at                                                               *)
RECURSIVE Shift(_, _, _, _)
Shift(q, j, carry, out) ==
  IF j > Len(q) THEN out
  ELSE IF q[j].e = "N" THEN Shift(q, j + 1, carry \o q[j].t, Append(out, [q[j] EXCEPT !.t = ""]))
  ELSE Shift(q, j + 1, "", Append(out, [q[j] EXCEPT !.t = carry \o q[j].t]))
ConOf(a) == SelectSeq(ConAll(a), LAMBDA x : x.e \in {"E", "C"})
Pt(e, t) == <<[e |-> e, i |-> 0, t |-> t]>>
PlanOf(a) == LET n == Norm(RenAll(a)) IN
  ConOf(a) \o (IF a.kind = "sep" THEN Pt("B", "") ELSE <<>>) \o Shift(n.ev \o Pt("F", n.tail), 1, "", <<>>)
Plans == [p \in 1..Len(Pool) |-> PlanOf(Pool[p])]
Cons == [p \in 1..Len(Pool) |-> Len(ConOf(Pool[p]))]
Texts == [p \in 1..Len(Pool) |-> TextOf(RenAll(Pool[p]))]

(* a state: instances [p, pos, st, out], what each thread is in, kept texts, threads that are ending *)
Start0 == [inst |-> <<>>, stack |-> [h \in Threads |-> <<>>], kept |-> [h \in Threads \cup {0} |-> ""],
           gone |-> {}]

Slot(th) == IF Design = "process" THEN 0 ELSE th
Shared == Design \in {"thread", "process"}

(* rendering begins with this step of the plan *)
Opens(p, pos) == pos = Cons[p] + 1 + (IF Pool[p].kind = "sep" THEN 1 ELSE 0)

(* instance i runs on thread th up to its next point *)
Advance(s, th, i) ==
  LET p == s.inst[i].p
      pos == s.inst[i].pos + 1
      x == Plans[p][pos]
      opens == Opens(p, pos)
      before == IF opens
                THEN (IF Design = "leftover" THEN s.kept[th] ELSE "")
                ELSE IF Shared THEN s.kept[Slot(th)] ELSE s.inst[i].out
      text == before \o x.t
      ends == x.e \in {"B", "F"}
      st == CASE x.e = "B" -> "built" [] x.e = "F" -> "done" [] OTHER -> "run"
      ren == pos > Cons[p] /\ x.e # "B"
  IN [s EXCEPT !.inst[i] = [p |-> p, pos |-> pos, st |-> st, out |-> IF ren THEN text ELSE ""],
               !.stack[th] = IF ends THEN SubSeq(@, 1, Len(@) - 1) ELSE @,
               !.kept = IF ~ren THEN @
                        ELSE IF Shared THEN [@ EXCEPT ![Slot(th)] = text]
                        ELSE IF Design = "leftover" /\ (opens \/ ends) THEN [@ EXCEPT ![th] = ""]
                        ELSE @]

Top(s, th) == s.stack[th][Len(s.stack[th])]
Idle(s, th) == s.stack[th] = <<>>
Push(s, th, i) == [s EXCEPT !.stack[th] = Append(@, i)]

Can(s, a) ==
  CASE a.op = "b" -> a.x \in 1..Len(Pool) /\ (Idle(s, a.th) => a.th \notin s.gone)
    [] a.op = "z" -> a.x \in 1..Len(Pool) /\ Idle(s, a.th) /\ a.th \notin s.gone /\ a.th # 1
    [] a.op = "r" -> /\ a.x \in 1..Len(s.inst) /\ s.inst[a.x].st = "built"
                     /\ Idle(s, a.th) => a.th \notin s.gone
    [] a.op \in {"g", "d"} -> ~Idle(s, a.th)

Do(s, a) ==
  CASE a.op \in {"b", "z"} ->
         LET n == Len(s.inst) + 1
             t == [s EXCEPT !.inst = Append(@, [p |-> a.x, pos |-> 0, st |-> "run", out |-> ""]),
                            !.gone = IF a.op = "z" THEN @ \cup {a.th} ELSE @]
         IN Advance(Push(t, a.th, n), a.th, n)
    [] a.op = "r" -> Advance(Push(s, a.th, a.x), a.th, a.x)
    [] a.op = "g" -> Advance(s, a.th, Top(s, a.th))
    [] a.op = "d" ->
         LET i == Top(s, a.th)
             ren == s.inst[i].pos > Cons[s.inst[i].p]
         IN [s EXCEPT !.inst[i].st = "dead", !.stack[a.th] = SubSeq(@, 1, Len(@) - 1),
                      !.kept = IF Design = "leftover" /\ ren THEN [@ EXCEPT ![a.th] = s.inst[i].out] ELSE @]

(* the instance an action moves *)
Moved(s, a) == CASE a.op \in {"b", "z"} -> Len(s.inst) + 1
                 [] a.op = "r" -> a.x
                 [] OTHER -> Top(s, a.th)

Right(s) == \A i \in 1..Len(s.inst) : s.inst[i].st = "done" => s.inst[i].out = Texts[s.inst[i].p]

VARIABLES s, hist
Init == s = Start0 /\ hist = <<>>
Acts == {[th |-> h, op |-> o, x |-> 0] : h \in Threads, o \in IF Fail THEN {"g", "d"} ELSE {"g"}}
        \cup {[th |-> h, op |-> o, x |-> p] : h \in Threads, o \in {"b", "z"},
                p \in IF Sample THEN {RandomElement(1..Len(Pool))} ELSE 1..Len(Pool)}
        \cup {[th |-> h, op |-> "r", x |-> i] : h \in Threads, i \in 1..Len(s.inst)}
Next == /\ Len(hist) < MaxOps
        /\ \E a \in Acts :
             /\ Can(s, a)
             /\ a.op \in {"b", "z"} => Len(s.inst) < MaxInst
             /\ s' = Do(s, a) /\ hist' = Append(hist, a)

Independent == Right(s)
Stacked == \A h \in Threads : \A j \in 1..Len(s.stack[h]) : s.inst[s.stack[h][j]].st = "run"
Once == \A i \in 1..Len(s.inst) :
          Cardinality({<<h, j>> \in Threads \X (1..Len(s.inst)) : j <= Len(s.stack[h]) /\ s.stack[h][j] = i})
            = (IF s.inst[i].st = "run" THEN 1 ELSE 0)
Over0 == /\ Len(s.inst) = MaxInst /\ \A i \in 1..MaxInst : s.inst[i].st \in {"done", "dead"}
Emit == Over0 => PrintT(ToJson(hist))
=============================================================================
