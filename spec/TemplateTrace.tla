--------------------------- MODULE TemplateTrace ---------------------------
(***************************************************************************)
(* Validates runs of generated templates against what they mean (Markup).  *)
(* A record is a template and every distinct behaviour observed of it over *)
(* the different output buffers; a behaviour is the sequence of events,    *)
(* each with the text written since the one before.                        *)
(***************************************************************************)
EXTENDS Markup, Json, IOUtils, TLC, FiniteSets

CONSTANT What   \* which reading of the meaning is judged

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

Sound(o) == o.pre /\ o.utf8 /\ o.usable /\ ~o.shrunk
NoFailure(o) == Sound(o) /\ o.pan = ""
Strip(q) == [j \in 1..Len(q) |-> [e |-> q[j].e, i |-> q[j].i]]
Only(q, kinds) == SelectSeq(q, LAMBDA x : x.e \in kinds)

(* the text, whatever the buffer *)
TextOk(r) == LET t == TextOf(RenAll(r)) IN
  /\ Len(r.obs) >= 1
  /\ \A j \in 1..Len(r.obs) : NoFailure(r.obs[j]) /\ r.obs[j].out = t

Built(r) == IF r.kind = "sep" THEN <<[e |-> "B", i |-> 0]>> ELSE <<>>
Kinds == {"E", "C", "B", "R", "N"}

(* every expression once, when built, and every value once, when rendered  *)
EventsOk(r) == LET want == Strip(Only(ConAll(r), Kinds)) \o Built(r) \o Strip(Only(RenAll(r), Kinds)) IN
  /\ Len(r.obs) >= 1
  /\ \A j \in 1..Len(r.obs) : r.obs[j].pan = "" /\ Strip(Only(r.obs[j].ev, Kinds)) = want

(* both, with every value's text where it belongs *)
AllOk(r) == LET c == ConAll(r)
                n == Norm(RenAll(r))
                want == Strip(Only(c, Kinds)) \o Built(r)
            IN
  /\ Len(r.obs) >= 1
  /\ \A j \in 1..Len(r.obs) :
       LET o == r.obs[j]
           seen == Only(o.ev, Kinds)
       IN /\ NoFailure(o)
          /\ Len(seen) = Len(want) + Len(n.ev)
          /\ Strip(SubSeq(seen, 1, Len(want))) = want
          /\ Strip(SubSeq(seen, Len(want) + 1, Len(seen))) = Strip(n.ev)
          /\ o.out = TextOf(RenAll(r))

(* a failure leaves the text rendered before it; every value made is       *)
(* dropped once, nothing else stays behind; a failure to build renders     *)
(* nothing                                                                 *)
Count(q, e, i) == Cardinality({j \in 1..Len(q) : q[j].e = e /\ q[j].i = i})
FailOk(r) ==
  LET c == Until(ConAll(r))
      cf == Fails(c) # {}
      n == IF cf THEN <<>> ELSE Until(RenAll(r))
      failed == cf \/ Fails(n) # {}
  IN
  /\ Len(r.obs) >= 1
  /\ \A j \in 1..Len(r.obs) : LET o == r.obs[j] IN
       /\ o.pre /\ o.utf8 /\ o.usable
       /\ (r.kind = "take" /\ failed) \/ ~o.shrunk
       /\ (o.pan # "") = failed
       /\ o.out = (IF r.kind = "take" /\ failed THEN "" ELSE TextOf(n))
       /\ cf => Only(o.ev, {"R", "N", "B"}) = <<>>
       /\ \A h \in 1..Len(r.held) :
            /\ Count(o.ev, "E", r.held[h]) <= 1
            /\ Count(o.ev, "D", r.held[h]) = Count(o.ev, "E", r.held[h])
            /\ Count(o.ev, "R", r.held[h]) <= 1
       /\ \A h \in 1..Len(o.m) : o.m[h].lk = 0

(* control that leaves while the markup is built: the steps before it and  *)
(* no others, nothing rendered, what was made is dropped once, and control *)
(* ends up where it left for (L); otherwise the template as it is          *)
Drops(r, o) == \A h \in 1..Len(r.held) :
  /\ Count(o.ev, "E", r.held[h]) <= 1
  /\ Count(o.ev, "D", r.held[h]) = Count(o.ev, "E", r.held[h])
LeaveOk(r) ==
  LET c == Until(ConAll(r))
      x == Fails(c)
      steps == Strip(Only(c, {"E", "C"})) IN
  IF x = {} THEN /\ AllOk(r)
                 /\ \A j \in 1..Len(r.obs) : Only(r.obs[j].ev, {"L"}) = <<>> /\ Drops(r, r.obs[j])
  ELSE /\ Len(r.obs) >= 1
       /\ \A j \in 1..Len(r.obs) : LET o == r.obs[j] IN
            /\ NoFailure(o) /\ o.out = ""
            /\ Strip(Only(o.ev, Kinds \cup {"L"})) = Append(steps, [e |-> "L", i |-> c[Len(c)].i])
            /\ Drops(r, o)
            /\ \A h \in 1..Len(o.m) : o.m[h].lk = 0

(* components: every argument and default that is bound is evaluated once, *)
(* each in its own order and all of a call's before its body; the order    *)
(* between arguments is open                                               *)
Evals(q) == Strip(Only(q, {"E", "C"}))
IdsOf(q) == {[e |-> q[j].e, i |-> q[j].i] : j \in 1..Len(q)}
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in IdsOf(a) \cup IdsOf(b) : Count(a, x.e, x.i) = Count(b, x.e, x.i)
Within(o, ids) == SelectSeq(o, LAMBDA x : x \in ids)
Precede(o, a, b) == \A x \in 1..Len(o), y \in 1..Len(o) : (o[x] \in a /\ o[y] \in b) => x < y
Parts(n) == CASE n.k = "call" -> [j \in 1..Len(n.sig) |-> Bound(n, n.sig[j])] \o <<n.body>>
              [] n.k \in {"el", "frag", "classes", "list"} -> n.items
              [] n.k = "attr" -> IF n.flag = "no" THEN <<n.name, n.val>> ELSE <<n.name>>
              [] n.k \in {"wrap", "do", "catch"} -> <<n.x>>
              [] n.k = "if" -> IF IfTaken(n) = 0 THEN <<>> ELSE <<n.arms[IfTaken(n)]>>
              [] n.k = "match" -> <<n.arms[MatchTaken(n)].x>>
              [] OTHER -> <<>>
RECURSIVE HasCall(_)
HasCall(n) == n.k = "call" \/ \E j \in 1..Len(Parts(n)) : HasCall(Parts(n)[j])
RECURSIVE Ordered(_, _)
Ordered(n, o) ==
  IF ~HasCall(n) THEN LET c == Evals(Con(n, <<>>)) IN Within(o, IdsOf(c)) = c
  ELSE /\ n.k = "call" => \A j \in 1..Len(n.sig) :
            Precede(o, IdsOf(Evals(Con(Bound(n, n.sig[j]), <<>>))), IdsOf(Evals(Con(n.body, <<>>))))
       /\ \A j \in 1..Len(Parts(n)) : Ordered(Parts(n)[j], o)
CallOk(r) ==
  LET c == Evals(ConAll(r))
      n == Norm(RenAll(r))
  IN
  /\ Len(r.obs) >= 1
  /\ \A j \in 1..Len(r.obs) :
       LET o == r.obs[j]
           seen == Evals(o.ev)
           shown == Only(o.ev, {"R", "N"})
       IN /\ NoFailure(o)
          /\ o.out = TextOf(RenAll(r))
          /\ SameBag(seen, c)
          /\ r.kind = "sep" => Precede(Strip(o.ev), IdsOf(c), {[e |-> "B", i |-> 0]})
          /\ Strip(shown) = Strip(Only(n.ev, {"R", "N"}))
          /\ ("open" \in DOMAIN r) \/ Ordered(r.root, seen)

Accepts(r) == CASE What = "text" -> TextOk(r)
                [] What = "events" -> EventsOk(r)
                [] What = "all" -> AllOk(r)
                [] What = "fail" -> FailOk(r)
                [] What = "leave" -> LeaveOk(r)
                [] What = "call" -> CallOk(r)

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
