------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* What markup means.  A template is a tree (records below); it has        *)
(*   Con(n, L)  the steps taken when the markup is constructed, in order   *)
(*   Ren(n, L)  the tokens produced when it is rendered, in order          *)
(* A step or token is [e, i, t]: "T" is output text t; every other e is an *)
(* observable event of the value numbered i: "E" its expression is         *)
(* evaluated, "C" a condition is tested, "R" the value is rendered, "N" an *)
(* iterator is asked for an item, "X" a failure.                           *)
(*                                                                         *)
(* Nodes (field k):                                                        *)
(*   leaf  id t raw r   an expression; evaluation observable when id > 0,  *)
(*                      rendering when r; renders t, escaped unless raw    *)
(*   fail  id t         a value that renders t and then fails              *)
(*   cfail id           an expression that fails when evaluated            *)
(*   el    tag void items     frag items     classes items                 *)
(*   attr  name flag id b val   (only in items; flag no, lit or dyn)       *)
(*   id    s            an identifier used as an attribute name            *)
(*   wrap  x            x in parentheses, in a block, through a function.. *)
(*   do    id x         a block: a step, then x                            *)
(*   var   v            the markup bound to a variable earlier (L[v])      *)
(*   none               an absent value                                    *)
(*   if    conds arms   match id v arms        conditional fragments       *)
(*   iter  id sep script                       a wrapped iterator          *)
(*   call  sig args body                       a component call            *)
(*   list  sep items   a wrapped iterator over values made beforehand      *)
(*   fiter id sep script at   one that fails when asked for item at        *)
(*   catch x           x, a failure while rendering which ends there       *)
(* A condition, guard, flag or matched value may have the field leave: it  *)
(* does not give a value but fails, or leaves the template, when evaluated *)
(***************************************************************************)
EXTENDS Text, Integers

Tk(t) == IF t = "" THEN <<>> ELSE <<[e |-> "T", i |-> 0, t |-> t]>>
Ev(e, i) == IF i = 0 THEN <<>> ELSE <<[e |-> e, i |-> i, t |-> ""]>>
Over(q, F(_)) == Flat([j \in 1..Len(q) |-> F(q[j])])
Attrs(q) == SelectSeq(q, LAMBDA x : x.k = "attr")
Kids(q) == SelectSeq(q, LAMBDA x : x.k # "attr")

(* the branch a conditional fragment takes: 0 for none *)
FirstTrue(conds) ==
  LET hit == {j \in 1..Len(conds) : conds[j].b}
  IN  IF hit = {} THEN 0 ELSE CHOOSE j \in hit : \A h \in hit : j <= h
IfTaken(n) == LET f == FirstTrue(n.conds) IN
  IF f > 0 THEN f ELSE IF Len(n.arms) > Len(n.conds) THEN Len(n.arms) ELSE 0
PatMatches(a, v) == a.any \/ \E j \in 1..Len(a.pats) : a.pats[j] = v
ArmTakes(a, v) == PatMatches(a, v) /\ (a.gid = 0 \/ a.gb)
MatchTaken(n) == CHOOSE j \in 1..Len(n.arms) :
  ArmTakes(n.arms[j], n.v) /\ \A h \in 1..(j - 1) : ~ArmTakes(n.arms[h], n.v)

Exit(n, id) == IF "leave" \in DOMAIN n /\ n.leave THEN Ev("X", id) ELSE <<>>

(* the steps of testing conditions *)
IfTests(n) == LET f == FirstTrue(n.conds)
                  m == IF f > 0 THEN f ELSE Len(n.conds)
              IN  Flat([j \in 1..m |-> Ev("C", n.conds[j].id) \o Exit(n.conds[j], n.conds[j].id)])
MatchTests(n) ==
  LET t == MatchTaken(n) IN
  Flat([j \in 1..t |-> IF PatMatches(n.arms[j], n.v)
                       THEN Ev("C", n.arms[j].gid) \o Exit(n.arms[j], n.arms[j].gid) ELSE <<>>])

(* an iterator is asked until it first says "no more" *)
Pulls(n) == LET stop == {j \in 1..Len(n.script) : ~n.script[j].some}
            IN  IF stop = {} THEN Len(n.script) + 1
                ELSE CHOOSE j \in stop : \A h \in stop : j <= h

(* component calls: which argument each parameter is bound to *)
Given(n, p) == {j \in 1..Len(n.args) : n.args[j].n = p.n}
LastOf(s) == CHOOSE j \in s : \A h \in s : h <= j
Rest(n) == SelectSeq(n.args, LAMBDA a : a.n = "")
(* what has no name goes to the rest parameter, together: as a fragment, or through a function of  *)
(* the component's (wrap), which here puts a bar before each and brackets around them              *)
Lit0(t) == [k |-> "leaf", id |-> 0, r |-> FALSE, raw |-> FALSE, t |-> t]
Wrapped(xs) == <<Lit0("[")>> \o Flat([j \in 1..Len(xs) |-> <<Lit0("|"), xs[j]>>]) \o <<Lit0("]")>>
IsWrapped(p) == "wrap" \in DOMAIN p /\ p.wrap
Bound(n, p) ==
  IF p.rest THEN LET xs == [j \in 1..Len(Rest(n)) |-> Rest(n)[j].x] IN
                 [k |-> "frag", items |-> IF IsWrapped(p) THEN Wrapped(xs) ELSE xs]
  ELSE IF Given(n, p) # {} THEN n.args[LastOf(Given(n, p))].x
  ELSE p.def
ParamNo(n, name) == CHOOSE j \in 1..Len(n.sig) : n.sig[j].n = name

(* the component's own markup with its parameters replaced *)
RECURSIVE Subst(_, _)
Subst(b, n) ==
  CASE b.k = "par" -> Bound(n, n.sig[ParamNo(n, b.p)])
    [] b.k \in {"el", "frag", "classes"} ->
         [b EXCEPT !.items = [j \in 1..Len(b.items) |-> Subst(b.items[j], n)]]
    [] b.k = "attr" -> IF b.flag = "no" THEN [b EXCEPT !.val = Subst(b.val, n)] ELSE b
    [] b.k = "wrap" -> [b EXCEPT !.x = Subst(b.x, n)]
    [] b.k \in {"do", "catch"} -> [b EXCEPT !.x = Subst(b.x, n)]
    [] OTHER -> b
Body(n) == Subst(n.body, n)

(* everything before the first failure, the failure included *)
Fails(q) == {j \in 1..Len(q) : q[j].e = "X"}
Until(q) == IF Fails(q) = {} THEN q
            ELSE SubSeq(q, 1, CHOOSE j \in Fails(q) : \A h \in Fails(q) : j <= h)

RECURSIVE Con(_, _)
Con(n, L) ==
  CASE n.k = "leaf"  -> Ev("E", n.id)
    [] n.k = "fail"  -> Ev("E", n.id)
    [] n.k = "cfail" -> Ev("E", n.id) \o Ev("X", n.id)
    [] n.k \in {"id", "var", "none", "par"} -> <<>>
    [] n.k = "wrap"  -> Con(n.x, L)
    [] n.k = "do"    -> Ev("E", n.id) \o Con(n.x, L)
    [] n.k = "attr"  -> IF n.flag = "no" THEN Con(n.name, L) \o Con(n.val, L)
                        ELSE IF n.flag = "lit" THEN (IF n.b THEN Con(n.name, L) ELSE <<>>)  \* dropped
                        ELSE Ev("E", n.id) \o Exit(n, n.id) \o Con(n.name, L)
    [] n.k \in {"el", "frag", "classes"} ->
         Over(Attrs(n.items), LAMBDA x : Con(x, L)) \o Over(Kids(n.items), LAMBDA x : Con(x, L))
    [] n.k = "if"    -> IfTests(n) \o (IF IfTaken(n) = 0 THEN <<>> ELSE Con(n.arms[IfTaken(n)], L))
    [] n.k = "match" -> Ev("E", n.id) \o Exit(n, n.id) \o MatchTests(n) \o Con(n.arms[MatchTaken(n)].x, L)
    [] n.k \in {"iter", "fiter"} -> Ev("E", n.id)
    [] n.k = "list"  -> Over(n.items, LAMBDA x : Con(x, L))
    [] n.k = "catch" -> Con(n.x, L)
    [] n.k = "call"  -> Over(n.sig, LAMBDA p : Con(Bound(n, p), L)) \o Con(n.body, L)

RECURSIVE Ren(_, _)
Ren(n, L) ==
  CASE n.k = "leaf"  -> (IF n.r THEN Ev("R", n.id) ELSE <<>>) \o Tk(IF n.raw THEN n.t ELSE Esc(n.t))
    [] n.k = "fail"  -> Ev("R", n.id) \o Tk(Esc(n.t)) \o Ev("X", n.id)
    [] n.k = "id"    -> Tk(n.s)
    [] n.k \in {"none", "cfail"} -> <<>>
    [] n.k = "wrap"  -> Ren(n.x, L)
    [] n.k = "do"    -> Ren(n.x, L)
    [] n.k = "var"   -> Ren(L[n.v], L)
    [] n.k = "attr"  -> IF n.flag = "no"
                        THEN Tk(" ") \o Ren(n.name, L) \o Tk("=\"") \o Ren(n.val, L) \o Tk("\"")
                        ELSE IF n.b THEN Tk(" ") \o Ren(n.name, L) ELSE <<>>
    [] n.k = "el"    -> Tk("<" \o n.tag) \o Over(Attrs(n.items), LAMBDA x : Ren(x, L)) \o Tk(">")
                        \o (IF n.void THEN <<>>
                            ELSE Over(Kids(n.items), LAMBDA x : Ren(x, L)) \o Tk("</" \o n.tag \o ">"))
    [] n.k = "frag"  -> Over(n.items, LAMBDA x : Ren(x, L))
    [] n.k = "classes" -> Flat([j \in 1..Len(n.items) |->
                            (IF j > 1 THEN Tk(" ") ELSE <<>>) \o Ren(n.items[j], L)])
    [] n.k = "if"    -> IF IfTaken(n) = 0 THEN <<>> ELSE Ren(n.arms[IfTaken(n)], L)
    [] n.k = "match" -> Ren(n.arms[MatchTaken(n)].x, L)
    [] n.k = "iter"  -> Flat([j \in 1..Pulls(n) |->
                            Ev("N", n.id + j)
                            \o (IF j = Pulls(n) THEN <<>>
                                ELSE (IF j > 1 THEN Tk(n.sep) ELSE <<>>)
                                     \o Ev("R", n.id + j) \o Tk(Esc(n.script[j].t)))])
    [] n.k = "fiter" -> Flat([j \in 1..n.at |->
                            Ev("N", n.id + j)
                            \o (IF j = n.at THEN Ev("X", n.id + j)
                                ELSE (IF j > 1 THEN Tk(n.sep) ELSE <<>>)
                                     \o Ev("R", n.id + j) \o Tk(Esc(n.script[j].t)))])
    [] n.k = "list"  -> Flat([j \in 1..Len(n.items) |->
                            (IF j > 1 THEN Tk(n.sep) ELSE <<>>) \o Ren(n.items[j], L)])
    [] n.k = "catch" -> LET q == Ren(n.x, L) IN
                        IF Fails(q) = {} THEN q ELSE SubSeq(Until(q), 1, Len(Until(q)) - 1)
    [] n.k = "call"  -> Ren(Body(n), L)

(* ---- readings of a sequence of steps and tokens ---- *)

TextOf(q) == Cat([j \in 1..Len(q) |-> IF q[j].e = "T" THEN q[j].t ELSE ""])

(* each event carries the text produced since the event before it *)
RECURSIVE NormIn(_, _, _, _)
NormIn(q, j, acc, out) ==
  IF j > Len(q) THEN [ev |-> out, tail |-> acc]
  ELSE IF q[j].e = "T" THEN NormIn(q, j + 1, acc \o q[j].t, out)
  ELSE NormIn(q, j + 1, "", Append(out, [e |-> q[j].e, i |-> q[j].i, t |-> acc]))
Norm(q) == NormIn(q, 1, "", <<>>)

(* a whole case: lets in order, then the root *)
ConAll(a) == Over(a.lets, LAMBDA x : Con(x, a.lets)) \o Con(a.root, a.lets)
RenAll(a) == Ren(a.root, a.lets)
=============================================================================
