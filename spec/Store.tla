-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The variables around a template.  Expressions in a template read,       *)
(* change, move and borrow them; conditions and matches look at them in    *)
(* place, bind parts of them by value, by reference or for change; and     *)
(* what is left of them is seen afterwards.  One more, a cell, is shared:  *)
(* it may change while others hold it, and some values look at it or       *)
(* change it only when they are rendered.                                  *)
(*                                                                         *)
(* A template is written step by step, keeping track as the compiler does  *)
(* of what is moved or borrowed at each point (st; a branch starts from    *)
(* where the conditions left, and afterwards every branch counts).  Then   *)
(* it is run as laby runs it: first everything is evaluated in order, into *)
(* fields and the slots of branches, then perhaps other statements run,    *)
(* then it is rendered.                                                    *)
(*                                                                         *)
(* Invariants: the text and the variables afterwards are what the template *)
(* means, and nothing is used after it was moved.  Designs that match a    *)
(* copy of a value instead of its place, that evaluate when rendering, or  *)
(* that consider one branch only are refuted.                              *)
(***************************************************************************)
EXTENDS Text, Integers, FiniteSets, TLC, Json
CONSTANTS Leaves,     \* what expressions do: variable.action
          Conds,      \* conditions of branches
          Frames,     \* kinds of nodes
          Vars,       \* variables that may be matched
          Guards, MaxItems, MaxDepth, MaxAfter,
          Wide,       \* start from many values of the variables, or few
          Design      \* "laby", "value", "late" or "last"

VARIABLES stack, st, size, init, tree, after, phase
vars == <<stack, st, size, init, tree, after, phase>>

All == {"n", "o", "s", "q", "t"}
VarOf(op) == SubSeq(op, 1, 1)
Act(op) == SubSeq(op, 3, Len(op))

(* ------------------------------------------------- what may be done where *)
Readable(x) == x \subseteq {"shared"}
Free(x) == x = {}
May(op, z) ==
  IF op = "lit" \/ VarOf(op) = "c" THEN TRUE
  ELSE LET x == z[VarOf(op)]  a == Act(op) IN
       CASE a \in {"one", "add"} -> TRUE                        \* the other half of the pair
         [] a \in {"read", "ref"} -> Readable(x)
         [] a = "new" -> x \subseteq {"moved"}
         [] OTHER -> Free(x)
Does(op, z) ==
  IF op = "lit" \/ VarOf(op) = "c" THEN z
  ELSE LET v == VarOf(op) IN
       CASE Act(op) = "move" -> [z EXCEPT ![v] = {"moved"}]
         [] Act(op) = "ref" -> [z EXCEPT ![v] = {"shared"}]
         [] Act(op) = "later" -> [z EXCEPT ![v] = {"excl"}]
         [] Act(op) = "new" -> [z EXCEPT ![v] = {}]
         [] OTHER -> z
JoinOf(S, last) == IF Design = "last" THEN last ELSE [v \in All |-> UNION {z[v] : z \in S}]

(* ------------------------------------------------------------- evaluation *)
Num(x) == IF x = -1 THEN "" ELSE ToString(x)
Str(x) == IF x = "-" THEN "" ELSE Esc(x)
Gone(z, v) == [z EXCEPT !.gone = @ \cup {v}]
Back(z, v) == [z EXCEPT !.gone = @ \ {v}]
Ran(z, t) == [s |-> z, t |-> t]
Run(op, z0) ==
  LET v == VarOf(op)
      z == IF op # "lit" /\ Act(op) \notin {"new", "one", "add"} /\ v \in z0.gone THEN [z0 EXCEPT !.bad = TRUE] ELSE z0 IN
  CASE op = "lit" -> Ran(z, "l")
    [] op \in {"n.read", "n.ref"} -> Ran(z, Num(z.n))
    [] op = "n.bump" -> Ran([z EXCEPT !.n = @ + 1], Num(z.n + 1))
    [] op = "n.swap" -> Ran([z EXCEPT !.n = 5], Num(z.n))
    [] op = "n.later" -> Ran([z EXCEPT !.n = @ + 10], Num(z.n + 10))
    [] op \in {"o.read", "o.ref"} -> Ran(z, Num(z.o))
    [] op = "o.take" -> Ran([z EXCEPT !.o = -1], Num(z.o))
    [] op = "o.put" -> Ran([z EXCEPT !.o = 4], "4")
    [] op \in {"s.read", "s.ref"} -> Ran(z, Str(z.s))
    [] op = "s.move" -> Ran(Gone(z, "s"), Str(z.s))
    [] op = "s.push" -> Ran([z EXCEPT !.s = @ \o "x"], Str(z.s \o "x"))
    [] op = "s.take" -> Ran([z EXCEPT !.s = ""], Str(z.s))
    [] op = "s.new" -> Ran([Back(z, "s") EXCEPT !.s = "z"], "z")
    [] op \in {"q.read", "q.ref"} -> Ran(z, Str(z.q))
    [] op = "q.move" -> Ran(Gone(z, "q"), Str(z.q))
    [] op = "q.take" -> Ran([z EXCEPT !.q = "-"], Str(z.q))
    [] op = "q.new" -> Ran([Back(z, "q") EXCEPT !.q = "w"], "w")
    [] op \in {"t.read", "t.ref"} -> Ran(z, Str(z.t))
    [] op = "t.move" -> Ran(Gone(z, "t"), Str(z.t))
    [] op = "t.push" -> Ran([z EXCEPT !.t = @ \o "x"], Str(z.t \o "x"))
    [] op = "t.new" -> Ran([Back(z, "t") EXCEPT !.t = "u"], "u")
    [] op = "t.one" -> Ran(z, Num(z.u))
    [] op = "t.add" -> Ran([z EXCEPT !.u = @ + 1], Num(z.u + 1))
    [] op \in {"c.get", "c.show"} -> Ran(z, Num(z.c))
    [] op = "c.set" -> Ran([z EXCEPT !.c = @ + 3], Num(z.c + 3))
    [] op = "c.swap" -> Ran([z EXCEPT !.c = 7], Num(z.c))
    [] op = "c.tick" -> Ran([z EXCEPT !.c = @ + 1], Num(z.c + 1))
(* what waits until it is rendered *)
Waits(op) == op \in {"c.show", "c.tick"} \/ (op # "lit" /\ Act(op) = "later")

(* what a pattern binds, and how: by value ("copy", "move"), by reference, for change, *)
(* or out of a value that was taken from its place ("owned")                           *)
Pat(shape, bind, guard) == [shape |-> shape, bind |-> bind, guard |-> guard]
Kind(v, form, p) ==
  IF p.bind = "no" THEN "no"
  ELSE IF form = "take" THEN "owned"
  ELSE IF form = "mut" \/ p.bind = "mut" THEN "mut"
  ELSE IF form \in {"amp", "keep"} \/ p.bind = "ref" THEN "ref"
  ELSE IF v = "q" \/ p.shape = "first" THEN "move" ELSE "copy"
Uses(kind, text) ==
  CASE kind = "no" -> {"none"}
    [] kind = "mut" -> {"none", "read", "bump"}
    [] kind = "ref" -> {"none", "read", "hold"}
    [] OTHER -> {"none", "read"}
IsText(v, p) == v = "q" \/ p.shape = "first"
Shapes(v, form) ==
  CASE v = "n" -> {"0", "1", "12", "any"}
    [] v \in {"o", "q"} -> {"some", "none", "any"}
    [] v = "t" -> {"first", "second", "one", "any"}
(* amp: by shared reference; keep: likewise, and what is found may be kept *)
Forms(v) == {"place", "mut", "amp"} \cup (IF v \in {"o", "q"} THEN {"take"} ELSE {}) \cup (IF v # "t" THEN {"keep"} ELSE {})
Holdable(v, form, p) == IsText(v, p) /\ form \in {"place", "keep"}
Binds(v, form, shape) ==
  LET can == CASE shape \in {"some", "first", "second"} -> TRUE
               [] v = "n" /\ shape \in {"12", "any"} -> TRUE
               [] OTHER -> FALSE IN
  IF ~can THEN {"no"}
  ELSE IF form = "place" THEN {"no", "val", "ref", "mut"}
  ELSE IF v = "n" /\ shape = "12" THEN {"no"} ELSE {"no", "val"}
(* what the pattern asks of the variable *)
Asks(v, form, p, z) ==
  LET k == Kind(v, form, p) IN
  IF form \in {"mut", "take"} THEN Free(z[v])
  ELSE IF form \in {"amp", "keep"} THEN Readable(z[v])
  ELSE IF v = "t" /\ p.shape # "first" THEN TRUE
  ELSE IF v = "t" /\ k = "no" THEN TRUE
  ELSE IF k \in {"mut", "move"} THEN Free(z[v]) ELSE Readable(z[v])
Binding(v, form, p, use, z) ==
  LET k == Kind(v, form, p) IN
  IF k = "move" THEN [z EXCEPT ![v] = {"moved"}]
  ELSE IF use = "hold" /\ p.shape # "second" THEN [z EXCEPT ![v] = {"shared"}] ELSE z
GuardReads(g, z) == CASE g = "n.gt" -> Readable(z["n"]) [] g = "s.empty" -> Readable(z["s"]) [] OTHER -> TRUE

Value(v, p, z) == CASE v = "n" -> z.n [] v = "o" -> z.o [] v = "q" -> z.q [] p.shape = "first" -> z.t [] OTHER -> z.u
Fits(v, p, z) ==
  /\ CASE v = "n" -> p.shape = "any" \/ (p.shape = "0" /\ z.n = 0) \/ (p.shape = "1" /\ z.n = 1) \/ (p.shape = "12" /\ z.n \in 1..2)
       [] v = "o" -> p.shape = "any" \/ (p.shape = "some") = (z.o # -1)
       [] v = "q" -> p.shape = "any" \/ (p.shape = "some") = (z.q # "-")
       [] v = "t" -> p.shape # "one" \/ z.u = 1
  /\ CASE p.guard = "" -> TRUE [] p.guard = "n.gt" -> z.n > 1 [] p.guard = "s.empty" -> z.s = ""
       [] p.guard = "v" -> IF IsText(v, p) THEN Value(v, p, z) = "" ELSE Value(v, p, z) > 1
(* the value looked at is z's; if it is a copy of the place (keep), changes are lost *)
Bound(v, form, p, use, z, looked, keep) ==
  LET k == Kind(v, form, p)
      x == Value(v, p, looked)
      text == IsText(v, p)
      z1 == IF v \in z.gone /\ ~(v = "t" /\ (p.shape # "first" \/ k = "no")) THEN [z EXCEPT !.bad = TRUE] ELSE z
      z2 == IF k = "move" THEN Gone(z1, v) ELSE z1
      z3 == IF use # "bump" \/ keep THEN z2
            ELSE CASE v = "n" -> [z2 EXCEPT !.n = @ + 1] [] v = "o" -> [z2 EXCEPT !.o = @ + 1]
                   [] v = "q" -> [z2 EXCEPT !.q = @ \o "y"]
                   [] v = "t" -> IF text THEN [z2 EXCEPT !.t = @ \o "y"] ELSE [z2 EXCEPT !.u = @ + 1] IN
  Ran(z3, IF use = "none" THEN ""
          ELSE IF use = "bump" THEN (IF text THEN Str(x \o "y") ELSE Num(x + 1))
          ELSE IF text THEN Str(x) ELSE Num(x))
Taken(v, form, z) == IF form # "take" THEN z ELSE IF v = "o" THEN [z EXCEPT !.o = -1] ELSE [z EXCEPT !.q = "-"]

(* plain conditions *)
Test(c, z) ==
  CASE c = "n.gt" -> [s |-> z, b |-> z.n > 1]
    [] c = "n.bumpgt" -> [s |-> [z EXCEPT !.n = @ + 1], b |-> z.n + 1 > 2]
    [] c = "o.some" -> [s |-> z, b |-> z.o # -1]
    [] c = "s.empty" -> [s |-> z, b |-> z.s = ""]
    [] c = "s.gone" -> [s |-> [z EXCEPT !.s = ""], b |-> z.s = ""]
    [] c = "q.none" -> [s |-> z, b |-> z.q = "-"]
    [] c = "t.add" -> [s |-> [z EXCEPT !.u = @ + 1], b |-> z.u + 1 > 1]
    [] c = "c.gt" -> [s |-> z, b |-> z.c > 4]
    [] c = "else" -> [s |-> z, b |-> TRUE]
CondMay(c, z) == CASE c \in {"else", "t.add", "c.gt"} -> TRUE [] c \in {"n.bumpgt", "s.gone"} -> Free(z[VarOf(c)]) [] OTHER -> Readable(z[VarOf(c)])

(* --------------------------------------------------------------- building *)
Clean == [v \in All |-> {}]
NoPat == Pat("", "no", "")
Frame(k) == [k |-> k, items |-> <<>>, v |-> "", form |-> "", c |-> "", p |-> NoPat, use |-> "none", ends |-> {}, st0 |-> Clean]
Node(f) == [k |-> f.k, items |-> f.items, v |-> f.v, form |-> f.form, c |-> f.c, p |-> f.p, use |-> f.use, op |-> ""]
LeafNode(k, op) == [Node(Frame(k)) EXCEPT !.op = op]
Top == stack[Len(stack)]
Under == SubSeq(stack, 1, Len(stack) - 1)
AddTo(q, x) == [q EXCEPT ![Len(q)].items = Append(@, x)]
Content == Top.k \in {"el", "frag", "rest"} \/ (Top.k \in {"branch", "wrap", "attr"} /\ Top.items = <<>>)
InBuild == phase = "build" /\ stack # <<>>
Starts == IF Wide THEN [n : {0, 1, 2}, o : {-1, 1, 2}, s : {"", "<s"}, q : {"-", "", "&q"}, t : {"", "t"}, u : {0, 1}, c : {0, 4}]
          ELSE {[n |-> 1, o |-> 2, s |-> "<s", q |-> "&q", t |-> "t", u |-> 1, c |-> 2], [n |-> 2, o |-> -1, s |-> "", q |-> "", t |-> "", u |-> 0, c |-> 4]}

Init == stack = <<>> /\ st = Clean /\ size = 0 /\ init \in Starts /\ tree = LeafNode("leaf", "lit") /\ after = <<>> /\ phase = "build"
Start == /\ phase = "build" /\ stack = <<>> /\ size = 0
         /\ stack' = <<Frame("frag")>> /\ size' = 1 /\ UNCHANGED <<st, init, tree, after, phase>>
Add == /\ InBuild /\ Content /\ size < MaxItems
       /\ \E op \in Leaves : May(op, st) /\ st' = Does(op, st) /\ stack' = AddTo(stack, LeafNode("leaf", op))
       /\ size' = size + 1 /\ UNCHANGED <<init, tree, after, phase>>
(* an element's attributes are evaluated before its children, wherever they are written *)
AddAttr == /\ InBuild /\ Top.k = "el" /\ size < MaxItems /\ (\A j \in 1..Len(Top.items) : Top.items[j].k = "attr")
           /\ \E op \in {x \in Leaves : VarOf(x) \notin {"o", "q"}} : May(op, st) /\ st' = Does(op, st) /\ stack' = AddTo(stack, LeafNode("attr", op))
           /\ size' = size + 1 /\ UNCHANGED <<init, tree, after, phase>>
Open == /\ InBuild /\ Content /\ size < MaxItems /\ Len(stack) < MaxDepth
        /\ \E k \in Frames \cap {"el", "frag", "wrap", "rest"} : stack' = Append(stack, Frame(k))
        /\ size' = size + 1 /\ UNCHANGED <<st, init, tree, after, phase>>
(* branches of conditions: st0 is where the conditions have left the variables *)
Branch(q, c, z) == /\ CondMay(c, z)
                   /\ st' = z
                   /\ stack' = Append([q EXCEPT ![Len(q)].st0 = z], [Frame("branch") EXCEPT !.c = c])
BranchLet(q, v, form, p, use, z) ==
  /\ Asks(v, form, p, z) /\ Readable(z[v])
  (* the reference is there before it is known whether the branch is taken; the places branches are kept in are
     there throughout, so a branch that keeps it keeps it from the branches after as well *)
  /\ LET w == IF form = "keep" THEN [z EXCEPT ![v] = @ \cup {"shared"}] ELSE z IN
     /\ st' = Binding(v, form, p, use, w)
     /\ stack' = Append([q EXCEPT ![Len(q)].st0 = w], [Frame("branch") EXCEPT !.c = "let", !.v = v, !.form = form, !.p = p, !.use = use])
AnyBranch(q, z) ==
  \/ \E c \in Conds : Branch(q, c, z)
  \/ \E v \in Vars \cap {"o", "q"} : \E form \in Forms(v) : \E b \in Binds(v, form, "some") \ {"no"} :
       LET p == Pat("some", b, "") IN \E use \in Uses(Kind(v, form, p), v = "q") : (use = "hold" => Holdable(v, form, p)) /\ BranchLet(q, v, form, p, use, z)
OpenIf == /\ InBuild /\ "if" \in Frames /\ Content /\ size + 1 < MaxItems /\ Len(stack) + 1 < MaxDepth
          /\ AnyBranch(Append(stack, Frame("if")), st)
          /\ size' = size + 2 /\ UNCHANGED <<init, tree, after, phase>>
Ended == Top.items # <<>> /\ Top.items[Len(Top.items)].c = "else"
NextBranch == /\ InBuild /\ Top.k = "if" /\ ~Ended /\ size < MaxItems
              /\ AnyBranch(stack, Top.st0) \/ Branch(stack, "else", Top.st0)
              /\ size' = size + 1 /\ UNCHANGED <<init, tree, after, phase>>
OpenMatch == /\ InBuild /\ "match" \in Frames /\ Content /\ size + 1 < MaxItems /\ Len(stack) + 1 < MaxDepth
             /\ \E v \in Vars : \E form \in Forms(v) :
                  /\ (form \in {"mut", "take"} => Free(st[v])) /\ (v # "t" \/ form # "place" => Readable(st[v]))
                  /\ stack' = Append(stack, [Frame("match") EXCEPT !.v = v, !.form = form,
                                             !.st0 = IF form = "keep" THEN [st EXCEPT ![v] = @ \cup {"shared"}] ELSE st])
             /\ size' = size + 1 /\ UNCHANGED <<st, init, tree, after, phase>>
Arm == /\ InBuild /\ Top.k = "match" /\ size < MaxItems /\ Len(Top.items) < 4
       /\ \E shape \in Shapes(Top.v, Top.form) : \E b \in Binds(Top.v, Top.form, shape), g \in Guards \cup {""} :
            LET p == Pat(shape, b, g) IN
            /\ (g = "v" => b # "no") /\ (g # "" /\ g # "v" => VarOf(g) # Top.v) /\ GuardReads(g, Top.st0)
            /\ Asks(Top.v, Top.form, p, Top.st0)
            /\ \E use \in Uses(Kind(Top.v, Top.form, p), IsText(Top.v, p)) :
                 /\ (use = "hold" => Holdable(Top.v, Top.form, p))
                 /\ st' = Binding(Top.v, Top.form, p, use, Top.st0)
                 /\ stack' = Append(IF use = "hold" /\ g # "" THEN [stack EXCEPT ![Len(stack)].st0[Top.v] = @ \cup {"shared"}] ELSE stack,
                                    [Frame("branch") EXCEPT !.c = "arm", !.v = Top.v, !.form = Top.form, !.p = p, !.use = use])
       /\ size' = size + 1 /\ UNCHANGED <<init, tree, after, phase>>
Sure(x) == x.p.guard = ""
Covered(f) == LET has(sh) == \E j \in 1..Len(f.items) : Sure(f.items[j]) /\ f.items[j].p.shape = sh IN
              has("any") \/ has("first") \/ has("second") \/ (has("some") /\ has("none"))
Close == /\ InBuild /\ Len(stack) > 1
         /\ CASE Top.k = "branch" ->
                   /\ Len(Top.items) = 1
                   /\ stack' = [AddTo(Under, Node(Top)) EXCEPT ![Len(Under)].ends = @ \cup {st}]
                   /\ st' = Under[Len(Under)].st0
              [] Top.k = "wrap" -> Len(Top.items) = 1 /\ stack' = AddTo(Under, Node(Top)) /\ st' = st
              [] Top.k = "if" -> /\ stack' = AddTo(Under, Node(Top))
                                 /\ st' = JoinOf(Top.ends \cup (IF Ended THEN {} ELSE {Top.st0}), Top.st0)
              [] Top.k = "match" -> /\ Covered(Top) /\ stack' = AddTo(Under, Node(Top)) /\ st' = JoinOf(Top.ends, Top.st0)
              [] OTHER -> stack' = AddTo(Under, Node(Top)) /\ st' = st
         /\ UNCHANGED <<size, init, tree, after, phase>>
Finish == /\ InBuild /\ Len(stack) = 1 /\ Top.items # <<>>
          /\ tree' = Node(Top) /\ stack' = <<>>
          /\ phase' \in (IF MaxAfter = 0 THEN {"written"} ELSE {"written", "kept"})
          /\ UNCHANGED <<st, size, init, after>>
(* statements between building it and rendering it; nothing is borrowed for longer than the statement *)
Between == /\ phase = "kept" /\ Len(after) < MaxAfter
           /\ \E op \in {x \in Leaves : x = "lit" \/ Act(x) \notin {"ref", "later"}} \ {"lit"} :
                May(op, st) /\ st' = Does(op, st) /\ after' = Append(after, op)
           /\ UNCHANGED <<stack, size, init, tree, phase>>
End == /\ phase \in {"written", "kept"} /\ (phase = "kept" => after # <<>>)
       /\ phase' = "done"
       /\ st' = [v \in All |-> st[v] \cap {"moved"}]
       /\ UNCHANGED <<stack, size, init, tree, after>>
Next == Start \/ Add \/ AddAttr \/ Open \/ OpenIf \/ NextBranch \/ OpenMatch \/ Arm \/ Close \/ Finish \/ Between \/ End
Spec == Init /\ [][Next]_vars

(* ------------------------------------------ what it means: one pass over it *)
(* attributes are written first, wherever they stand *)
Store0 == [n |-> init.n, o |-> init.o, s |-> init.s, q |-> init.q, t |-> init.t, u |-> init.u, c |-> init.c, gone |-> {}, bad |-> FALSE]
(* what waits is a hole in the text, filled at the end *)
Meaning(op, z) == IF op = "c.show" THEN Ran(z, "~s") ELSE IF op = "c.tick" THEN Ran(z, "~t") ELSE Run(op, z)
RECURSIVE Fill(_, _, _)
Fill(t, i, c) ==
  IF i > Len(t) THEN [t |-> "", c |-> c]
  ELSE IF SubSeq(t, i, i) # "~" THEN LET w == Fill(t, i + 1, c) IN [t |-> SubSeq(t, i, i) \o w.t, c |-> w.c]
  ELSE LET d == IF SubSeq(t, i + 1, i + 1) = "t" THEN c + 1 ELSE c
           w == Fill(t, i + 2, d) IN [t |-> Num(d) \o w.t, c |-> w.c]
AttrText(i, t) == " x" \o ToString(i) \o "=\"" \o t \o "\""
RECURSIVE Mean(_, _), MeanAll(_, _, _), MeanBr(_, _, _)
MeanAll(q, i, z) ==      \* [s, a: text of attributes, t: text of the rest]
  IF i > Len(q) THEN [s |-> z, a |-> "", t |-> ""]
  ELSE LET r == IF q[i].k = "attr" THEN Meaning(q[i].op, z) ELSE Mean(q[i], z)
           w == MeanAll(q, i + 1, r.s) IN
       [s |-> w.s, a |-> (IF q[i].k = "attr" THEN AttrText(i, r.t) ELSE "") \o w.a,
        t |-> (IF q[i].k = "attr" THEN "" ELSE r.t) \o w.t]
Mean(n, z) ==
  CASE n.k = "leaf" -> Meaning(n.op, z)
    [] n.k \in {"el", "frag", "wrap", "rest"} ->
         LET w == MeanAll(n.items, 1, z) IN
         Ran(w.s, CASE n.k = "el" -> "<p" \o w.a \o ">" \o w.t \o "</p>" [] n.k = "frag" -> w.t
                    [] n.k = "wrap" -> "<b>" \o w.t \o "</b>" [] n.k = "rest" -> "<i>" \o w.t \o "</i>")
    [] n.k = "if" -> MeanBr(n.items, 1, z)
    [] n.k = "match" ->
         LET js == {j \in 1..Len(n.items) : Fits(n.v, n.items[j].p, z)}
             b == n.items[CHOOSE j \in js : \A i \in js : j <= i]
             u == Bound(n.v, n.form, b.p, b.use, Taken(n.v, n.form, z), z, FALSE)
             w == Mean(b.items[1], u.s) IN Ran(w.s, u.t \o w.t)
MeanBr(q, i, z) ==
  IF i > Len(q) THEN Ran(z, "")
  ELSE LET b == q[i] IN
       IF b.c = "let"
       THEN LET z1 == Taken(b.v, b.form, z) IN
            IF ~Fits(b.v, b.p, z) THEN MeanBr(q, i + 1, z1)
            ELSE LET u == Bound(b.v, b.form, b.p, b.use, z1, z, FALSE)
                     w == Mean(b.items[1], u.s) IN Ran(w.s, u.t \o w.t)
       ELSE LET c == Test(b.c, z) IN IF c.b THEN Mean(b.items[1], c.s) ELSE MeanBr(q, i + 1, c.s)

(* ----------------------------- what laby does: values first, then the text *)
(* a value is a text, or something still to be done when it is rendered *)
RECURSIVE Build(_, _), BuildAll(_, _, _), BuildBr(_, _, _), Show(_, _), ShowAll(_, _, _)
Val(z, v) == [s |-> z, v |-> v]
Ready(t) == [k |-> "text", t |-> t]
BuildAll(q, i, z) ==
  IF i > Len(q) THEN Val(z, <<>>)
  ELSE LET r == IF q[i].k = "attr"
                THEN LET x == Build([q[i] EXCEPT !.k = "leaf"], z) IN Val(x.s, [k |-> "attr", i |-> i, x |-> x.v])
                ELSE Build(q[i], z)
           w == BuildAll(q, i + 1, r.s) IN Val(w.s, <<r.v>> \o w.v)
Slot(z, n, j, q) == Val(z, [k |-> "frag", q |-> [i \in 1..n |-> IF i = j THEN [k |-> "frag", q |-> q] ELSE Ready("")]])
Build(n, z) ==
  CASE n.k = "leaf" -> IF Design = "late" \/ Waits(n.op) THEN Val(z, [k |-> "todo", op |-> n.op])
                       ELSE LET r == Run(n.op, z) IN Val(r.s, Ready(r.t))
    [] n.k \in {"el", "frag", "wrap", "rest"} -> LET w == BuildAll(n.items, 1, z) IN Val(w.s, [k |-> n.k, q |-> w.v])
    [] n.k = "if" -> BuildBr(n.items, 1, z)
    [] n.k = "match" ->
         LET js == {j \in 1..Len(n.items) : Fits(n.v, n.items[j].p, z)}
             j == CHOOSE j \in js : \A i \in js : j <= i
             b == n.items[j]
             u == Bound(n.v, n.form, b.p, b.use, Taken(n.v, n.form, z), z, Design = "value" /\ n.form = "place")
             w == Build(b.items[1], u.s) IN Slot(w.s, Len(n.items), j, <<Ready(u.t), w.v>>)
BuildBr(q, i, z) ==
  IF i > Len(q) THEN Slot(z, Len(q), 0, <<>>)
  ELSE LET b == q[i] IN
       IF b.c = "let"
       THEN LET z1 == Taken(b.v, b.form, z) IN
            IF ~Fits(b.v, b.p, z) THEN BuildBr(q, i + 1, z1)
            ELSE LET u == Bound(b.v, b.form, b.p, b.use, z1, z, Design = "value" /\ b.form = "place")
                     w == Build(b.items[1], u.s) IN Slot(w.s, Len(q), i, <<Ready(u.t), w.v>>)
       ELSE LET c == Test(b.c, z) IN
            IF c.b THEN LET w == Build(b.items[1], c.s) IN Slot(w.s, Len(q), i, <<w.v>>) ELSE BuildBr(q, i + 1, c.s)
ShowAll(q, i, z) == IF i > Len(q) THEN Ran(z, "")
                    ELSE LET r == Show(q[i], z)  w == ShowAll(q, i + 1, r.s) IN Ran(w.s, r.t \o w.t)
Show(v, z) ==
  CASE v.k = "text" -> Ran(z, v.t)
    [] v.k = "todo" -> Run(v.op, z)
    [] v.k = "attr" -> LET r == Show(v.x, z) IN Ran(r.s, AttrText(v.i, r.t))
    [] v.k = "frag" -> ShowAll(v.q, 1, z)
    [] OTHER ->
         LET a == ShowAll(SelectSeq(v.q, LAMBDA x : x.k = "attr"), 1, z)
             w == ShowAll(SelectSeq(v.q, LAMBDA x : x.k # "attr"), 1, a.s)
             tag == CASE v.k = "el" -> "p" [] v.k = "wrap" -> "b" [] v.k = "rest" -> "i" IN
         Ran(w.s, "<" \o tag \o a.t \o ">" \o w.t \o "</" \o tag \o ">")

RECURSIVE Afterwards(_, _)
Afterwards(i, z) == IF i > Len(after) THEN Ran(z, "")
                    ELSE LET r == Run(after[i], z)  w == Afterwards(i + 1, r.s) IN Ran(w.s, "/" \o r.t \o w.t)
(* what is left of the variables that can still be used *)
Left(z) == (IF st["n"] = {} THEN "n" \o Num(z.n) \o ";" ELSE "") \o (IF st["o"] = {} THEN "o" \o Num(z.o) \o ";" ELSE "")
           \o (IF st["s"] = {} THEN "s" \o Str(z.s) \o ";" ELSE "") \o (IF st["q"] = {} THEN "q" \o (IF z.q = "-" THEN "-" ELSE Str(z.q)) \o ";" ELSE "")
           \o (IF st["t"] = {} THEN "t" \o Str(z.t) \o ";" ELSE "") \o "u" \o Num(z.u) \o ";c" \o Num(z.c) \o ";"
(* an expression whose effect is left for later has it after the statements in between *)
Done == LET b == Build(tree, Store0)  w == Afterwards(1, b.s)  r == Show(b.v, w.s) IN
        [t |-> r.t \o w.t \o "|" \o Left(r.s), bad |-> r.s.bad]
Meant == LET r == Mean(tree, Store0)  w == Afterwards(1, r.s)  f == Fill(r.t, 1, w.s.c) IN
         [t |-> f.t \o w.t \o "|" \o Left([w.s EXCEPT !.c = f.c]), bad |-> w.s.bad]
SameEffect == phase = "done" => Done.t = Meant.t
NotGone == phase = "done" => ~Done.bad
Emit == phase = "done" => PrintT(ToJson([tree |-> tree, init |-> init, after |-> after, left |-> {v \in All : st[v] = {}}, text |-> Meant.t]))
=============================================================================
