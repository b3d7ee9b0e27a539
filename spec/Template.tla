------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* The life of a template, as the implementation goes through it:          *)
(*   build      a template is written (every template within the bounds)   *)
(*   compile    it is flattened into static text, fields and statements    *)
(*   construct  the fields are evaluated in order                          *)
(*   render     the statements run in order                                *)
(* with a possible failure in the last two.  Its invariants say that this  *)
(* machine does what the tree means (Markup): nothing is evaluated or      *)
(* rendered twice, out of order or not at all, no text is lost, and a      *)
(* failure leaves exactly what came before it.                             *)
(***************************************************************************)
EXTENDS Markup, FiniteSets, TLC, Json

CONSTANTS Leaves,      \* kinds of leaf
          AttrForms,   \* kinds of attribute
          Frames,      \* kinds of markup that may be opened inside
          Roots,       \* kinds of markup at the top
          Modes,       \* ways to put markup inside markup
          MaxItems,    \* total number of leaves, attributes and frames
          MaxDepth,
          Run          \* TRUE: go on after building

VARIABLES stack, size, lets, ast, phase, todo, lit, fields, stmts, pc, log, out

vars == <<stack, size, lets, ast, phase, todo, lit, fields, stmts, pc, log, out>>
machine == <<todo, lit, fields, stmts, pc, log, out>>

None == [k |-> "none"]

(* ------------------------------------------------------------- building *)

Node0(how, id) ==
  [k |-> "leaf", how |-> how, id |-> IF how \in {"ev", "ex", "held", "rawev"} THEN id ELSE 0,
   r |-> how \in {"ev", "held", "rawev"}, raw |-> how \in {"raw", "rawev", "doc"},
   t |-> CASE how = "empty" -> "" [] how = "doc" -> "<!DOCTYPE html>" [] OTHER -> "<" \o how]

Leaf(how, id) ==
  IF how = "none" THEN None
  ELSE IF how = "fail" THEN [k |-> "fail", id |-> id, t |-> "&f"]
  ELSE IF how = "cfail" THEN [k |-> "cfail", id |-> id]
  ELSE IF how = "plit" THEN [k |-> "wrap", w |-> "paren", x |-> Node0("lit", id)]
  ELSE IF how = "dolit" THEN [k |-> "do", id |-> id, x |-> Node0("lit", id)]
  ELSE Node0(how, id)

(* attribute forms: name static (s), literal (l), computed (e), raw (r) or *)
(* a block that does something and ends in a literal (p); value likewise   *)
(* (such a block is d, a value without events x, one that fails F); or a   *)
(* flag, literal (1, 0) or computed true (t) or false (f), or one that     *)
(* fails or leaves when computed (L)                                       *)
Attr(form, id) ==
  LET name == CASE SubSeq(form, 1, 1) = "s" -> [k |-> "id", s |-> "nm"]
                [] SubSeq(form, 1, 1) = "l" -> Node0("lit", id)
                [] SubSeq(form, 1, 1) = "r" -> Node0("rawev", id)
                [] SubSeq(form, 1, 1) = "p" ->
                     [k |-> "wrap", w |-> "paren", x |-> [k |-> "do", id |-> id, x |-> Node0("lit", id)]]
                [] OTHER -> Node0("ev", id)
      v == SubSeq(form, 2, 2)
      base == [k |-> "attr", form |-> form, name |-> name, flag |-> "no", id |-> 0, b |-> FALSE,
               val |-> None]
  IN CASE v = "l" -> [base EXCEPT !.val = Node0("lit", id + 1)]
       [] v = "e" -> [base EXCEPT !.val = Node0("ev", id + 1)]
       [] v = "d" -> [base EXCEPT !.val = [k |-> "do", id |-> id + 1, x |-> Node0("lit", id + 1)]]
       [] v = "x" -> [base EXCEPT !.val = Node0("ex", id + 1)]
       [] v = "r" -> [base EXCEPT !.val = Node0("rawev", id + 1)]
       [] v = "F" -> [base EXCEPT !.val = [k |-> "fail", id |-> id + 1, t |-> "&f"]]
       [] v \in {"1", "0"} -> [base EXCEPT !.flag = "lit", !.b = (v = "1")]
       [] v = "L" -> [k |-> "attr", form |-> form, name |-> name, flag |-> "dyn", id |-> id + 1, b |-> TRUE,
                      val |-> None, leave |-> TRUE]
       [] v \in {"t", "f"} -> [base EXCEPT !.flag = "dyn", !.id = id + 1, !.b = (v = "t")]

Frame(kind, mode) == [kind |-> kind, mode |-> mode, items |-> <<>>]
Top == stack[Len(stack)]
AddTo(st, x) == [st EXCEPT ![Len(st)].items = Append(@, x)]
NextId == 2 * size + 1

Start == /\ stack = <<>> /\ size = 0
         /\ \E k \in Roots : stack' = <<Frame(k, "root")>>
         /\ size' = 1 /\ UNCHANGED <<lets, ast, phase>>

AddLeaf == /\ stack # <<>> /\ size < MaxItems /\ Top.kind # "void"
           /\ \E how \in Leaves : stack' = AddTo(stack, Leaf(how, NextId))
           /\ size' = size + 1 /\ UNCHANGED <<lets, ast, phase>>

AddAttr == /\ stack # <<>> /\ size < MaxItems /\ Top.kind \in {"el", "void"}
           /\ \E f \in AttrForms : stack' = AddTo(stack, Attr(f, NextId))
           /\ size' = size + 1 /\ UNCHANGED <<lets, ast, phase>>

Open == /\ stack # <<>> /\ size < MaxItems /\ Len(stack) < MaxDepth /\ Top.kind # "void"
        /\ \E k \in Frames, m \in Modes : stack' = Append(stack, Frame(k, m))
        /\ size' = size + 1 /\ UNCHANGED <<lets, ast, phase>>

Markups(kind, items) ==
  CASE kind = "el"      -> {[k |-> "el", tag |-> "tag", void |-> FALSE, items |-> items]}
    [] kind = "void"    -> {[k |-> "el", tag |-> "vt", void |-> TRUE, items |-> items]}
    [] kind = "frag"    -> {[k |-> "frag", items |-> items]}
    [] kind = "classes" -> {[k |-> "classes", items |-> items]}
    (* an if chain, with or without else; the first true condition is j, and all after it are true *)
    [] kind = "if"      ->
         {[k |-> "if", conds |-> [h \in 1..c |-> [id |-> 100 * size + h, b |-> h >= j]], arms |-> items]
            : c \in {n \in {Len(items), Len(items) - 1} : n >= 1}, j \in 1..(Len(items) + 1)}
    (* a match; arm j is taken; those before fail by pattern or by guard *)
    [] kind = "match"   ->
         {[k |-> "match", id |-> 100 * size, v |-> j,
           arms |-> [h \in 1..Len(items) |->
             [any |-> h = Len(items) \/ (g /\ h < j), pats |-> <<h, h + 50>>,
              gid |-> IF g /\ h < Len(items) THEN 100 * size + h ELSE 0, gb |-> h >= j,
              x |-> items[h]]]]
            : j \in 1..Len(items), g \in BOOLEAN}
    (* those whose condition, guard or matched value fails or leaves *)
    [] kind = "lif"     ->
         {[k |-> "if", conds |-> [h \in 1..c |-> [id |-> 100 * size + h, b |-> h >= i, leave |-> h = j]],
           arms |-> items]
            : c \in {n \in {Len(items), Len(items) - 1} : n >= 1}, j \in 1..Len(items), i \in 1..(Len(items) + 1)}
    [] kind = "lmatch"  ->
         {[k |-> "match", id |-> 100 * size, v |-> j, leave |-> s,
           arms |-> [h \in 1..Len(items) |->
             [any |-> h = Len(items), pats |-> <<h, h + 50>>, gid |-> IF h < Len(items) THEN 100 * size + h ELSE 0,
              gb |-> TRUE, leave |-> ~s /\ h < Len(items), x |-> items[h]]]]
            : j \in 1..Len(items), s \in BOOLEAN}

Closable == ~(Top.kind \in {"if", "match", "lif", "lmatch"} /\ Top.items = <<>>)

Close == /\ Len(stack) > 1 /\ Closable
         /\ LET rest == SubSeq(stack, 1, Len(stack) - 1) IN
            \E m \in Markups(Top.kind, Top.items) :
              CASE Top.mode = "flat" -> stack' = AddTo(rest, m) /\ lets' = lets
                [] Top.mode = "let"  -> stack' = AddTo(rest, [k |-> "var", v |-> Len(lets) + 1])
                                        /\ lets' = Append(lets, m)
                [] Top.mode = "do"   -> stack' = AddTo(rest, [k |-> "do", id |-> 1000 + size, x |-> m])
                                        /\ lets' = lets
                [] OTHER -> stack' = AddTo(rest, [k |-> "wrap", w |-> Top.mode, x |-> m]) /\ lets' = lets
         /\ UNCHANGED <<size, ast, phase>>

Finish == /\ Len(stack) = 1 /\ Closable /\ ast = <<>>
          /\ \E m \in Markups(Top.kind, Top.items) : ast' = <<[lets |-> lets, root |-> m]>>
          /\ phase' = IF Run THEN "compile" ELSE "built"
          /\ UNCHANGED <<stack, size, lets>>

(* ------------------------------------------------------------ compiling *)

It(op, x) == [op |-> op, x |-> x]
A == ast[1]
IsLit(n) == (n.k = "leaf" /\ n.how = "lit") \/ (n.k = "wrap" /\ n.w = "paren" /\ n.x.k = "leaf"
                                                /\ n.x.how = "lit")
LitText(n) == Esc(IF n.k = "wrap" THEN n.x.t ELSE n.t)
Unfold(n) ==   \* markup written directly inside markup is flattened into it
  LET as == Attrs(n.items) ks == Kids(n.items) IN
  CASE n.k = "el" ->
         <<It("text", "<" \o n.tag)>> \o [j \in 1..Len(as) |-> It("attr", as[j])] \o <<It("text", ">")>>
         \o (IF n.void THEN <<>> ELSE [j \in 1..Len(ks) |-> It("node", ks[j])]
                                      \o <<It("text", "</" \o n.tag \o ">")>>)
    [] n.k = "frag" -> [j \in 1..Len(ks) |-> It("node", ks[j])]
    [] n.k = "classes" -> Flat([j \in 1..Len(ks) |->
                            (IF j > 1 THEN <<It("text", " ")>> ELSE <<>>) \o <<It("node", ks[j])>>])
CanUnfold(n) == n.k \in {"el", "frag", "classes"}

Flush == IF lit = "" THEN stmts ELSE Append(stmts, [s |-> "push", t |-> lit, f |-> 0, g |-> 0])
Field(x) == fields' = Append(fields, x)
NewField == Len(fields) + 1

CompileStep ==
  /\ phase = "compile" /\ todo # <<>>
  /\ LET h == Head(todo) rest == Tail(todo) IN
     CASE h.op = "text" -> todo' = rest /\ lit' = lit \o h.x /\ UNCHANGED <<fields, stmts>>
       [] h.op = "node" /\ CanUnfold(h.x) ->
            todo' = Unfold(h.x) \o rest /\ UNCHANGED <<lit, fields, stmts>>
       [] h.op = "node" /\ IsLit(h.x) ->
            todo' = rest /\ lit' = lit \o LitText(h.x) /\ UNCHANGED <<fields, stmts>>
       [] h.op = "node" /\ h.x.k = "id" ->
            todo' = rest /\ lit' = lit \o h.x.s /\ UNCHANGED <<fields, stmts>>
       [] h.op = "node" ->
            /\ todo' = rest /\ lit' = "" /\ Field(h.x)
            /\ stmts' = Append(Flush, [s |-> "ren", t |-> "", f |-> NewField, g |-> 0])
       [] h.op = "attr" /\ h.x.flag = "no" ->
            /\ todo' = <<It("text", " "), It("node", h.x.name), It("text", "=\""),
                         It("val", h.x.val), It("text", "\"")>> \o rest
            /\ UNCHANGED <<lit, fields, stmts>>
       [] h.op = "val" /\ IsLit(h.x) ->
            todo' = rest /\ lit' = lit \o LitText(h.x) /\ UNCHANGED <<fields, stmts>>
       [] h.op = "val" ->      \* markup used as a value is not flattened
            /\ todo' = rest /\ lit' = "" /\ Field(h.x)
            /\ stmts' = Append(Flush, [s |-> "ren", t |-> "", f |-> NewField, g |-> 0])
       [] h.op = "attr" /\ h.x.flag = "lit" ->
            /\ todo' = (IF h.x.b THEN <<It("text", " "), It("node", h.x.name)>> ELSE <<>>) \o rest
            /\ UNCHANGED <<lit, fields, stmts>>
       [] h.op = "attr" /\ h.x.flag = "dyn" ->
            LET flag == [k |-> "flag", id |-> h.x.id, b |-> h.x.b,
                          leave |-> "leave" \in DOMAIN h.x /\ h.x.leave] IN
            /\ todo' = rest /\ lit' = ""
            /\ IF h.x.name.k = "id" \/ IsLit(h.x.name)
               THEN /\ Field(flag)
                    /\ stmts' = Append(Flush, [s |-> "if", f |-> NewField, g |-> 0,
                                               t |-> " " \o (IF h.x.name.k = "id" THEN h.x.name.s
                                                             ELSE LitText(h.x.name))])
               ELSE /\ fields' = fields \o <<flag, h.x.name>>
                    /\ stmts' = Append(Flush, [s |-> "ifren", f |-> NewField, g |-> NewField + 1, t |-> " "])
  /\ UNCHANGED <<phase, pc, log, out>>

Begin == /\ phase = "compile" /\ todo = <<>> /\ stmts = <<>> /\ fields = <<>> /\ lit = "" /\ pc = 0
         /\ IF CanUnfold(A.root) THEN todo' = Unfold(A.root) ELSE todo' = <<It("node", A.root)>>
         /\ pc' = 1 /\ UNCHANGED <<phase, lit, fields, stmts, log, out>>

Compiled == /\ phase = "compile" /\ todo = <<>> /\ pc = 1
            /\ stmts' = Flush /\ lit' = ""
            /\ phase' = "construct"
            /\ log' = Until(Over(A.lets, LAMBDA x : Con(x, A.lets)))
            /\ UNCHANGED <<todo, fields, pc, out>>

(* --------------------------------------------------- running what it is *)

ConOf(x) == IF x.k = "flag" THEN Ev("E", x.id) \o Exit(x, x.id) ELSE Con(x, A.lets)
Failed(q) == Fails(q) # {}

Construct ==
  /\ phase = "construct"
  /\ IF Failed(log) THEN phase' = "failed" /\ UNCHANGED <<pc, log>>
     ELSE IF pc > Len(fields) THEN phase' = "render" /\ pc' = 1 /\ log' = log
     ELSE log' = log \o Until(ConOf(fields[pc])) /\ pc' = pc + 1 /\ phase' = phase
  /\ UNCHANGED <<todo, lit, fields, stmts, out>>

RenOf(x) == Ren(x, A.lets)
Render ==
  /\ phase = "render"
  /\ IF Failed(out) THEN phase' = "failed" /\ UNCHANGED <<pc, out>>
     ELSE IF pc > Len(stmts) THEN phase' = "done" /\ UNCHANGED <<pc, out>>
     ELSE /\ pc' = pc + 1 /\ phase' = phase
          /\ LET s == stmts[pc] IN
             out' = out \o Until(
               CASE s.s = "push"  -> Tk(s.t)
                 [] s.s = "ren"   -> RenOf(fields[s.f])
                 [] s.s = "if"    -> IF fields[s.f].b THEN Tk(s.t) ELSE <<>>
                 [] s.s = "ifren" -> IF fields[s.f].b THEN Tk(s.t) \o RenOf(fields[s.g]) ELSE <<>>)
  /\ UNCHANGED <<todo, lit, fields, stmts, log>>

Init == /\ stack = <<>> /\ size = 0 /\ lets = <<>> /\ ast = <<>> /\ phase = "build"
        /\ todo = <<>> /\ lit = "" /\ fields = <<>> /\ stmts = <<>> /\ pc = 0
        /\ log = <<>> /\ out = <<>>

Build == phase = "build" /\ (Start \/ AddLeaf \/ AddAttr \/ Open \/ Close \/ Finish) /\ UNCHANGED machine
Next == \/ Build
        \/ (Begin \/ CompileStep \/ Compiled \/ Construct \/ Render)
           /\ UNCHANGED <<stack, size, lets, ast>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------------------------------------ properties *)

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* static texts may be cut differently: compare with texts merged *)
Ended(q) == Norm(q)
PrefixText(p, q) == LET a == TextOf(p) b == TextOf(q) IN
  Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
EventsOf(q) == SelectSeq(q, LAMBDA x : x.e # "T")

Means ==
  phase \in {"construct", "render", "done", "failed"} =>
    /\ IsPrefixOf(log, Until(ConAll(A)))
    /\ PrefixText(out, RenAll(A))
    /\ IsPrefixOf(EventsOf(out), EventsOf(RenAll(A)))
    /\ phase = "construct" => out = <<>>
    /\ phase \in {"render", "done"} => log = ConAll(A)
    /\ phase = "done" => Norm(out) = Norm(RenAll(A))
    /\ phase = "failed" => /\ Failed(log) => log = Until(ConAll(A)) /\ out = <<>>
                           /\ Failed(out) => log = ConAll(A) /\ Norm(out) = Norm(Until(RenAll(A)))
                           /\ Failed(log) \/ Failed(out)

(* removing raw values leaves the special characters of the markup only *)
RECURSIVE HasRaw(_)
HasRaw(n) == CASE n.k = "leaf" -> n.raw
  [] n.k \in {"el", "frag", "classes"} -> \E j \in 1..Len(n.items) : HasRaw(n.items[j])
  [] n.k = "attr" -> HasRaw(n.name) \/ HasRaw(n.val)
  [] n.k \in {"wrap", "do"} -> HasRaw(n.x)
  [] n.k = "if" -> \E j \in 1..Len(n.arms) : HasRaw(n.arms[j])
  [] n.k = "match" -> \E j \in 1..Len(n.arms) : HasRaw(n.arms[j].x)
  [] OTHER -> FALSE
ValueText(q) == Cat([j \in 1..Len(q) |-> IF q[j].e = "R" THEN "" ELSE q[j].t])

(* every template built ends *)
Ends == <>(phase \in {"done", "failed", "built"})

Emit == phase \in {"compile", "built"} /\ pc = 0 /\ todo = <<>> => PrintT(ToJson(ast[1]))
=============================================================================
