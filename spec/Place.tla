------------------------------- MODULE Place -------------------------------
(***************************************************************************)
(* Where things are in the source.  A template is built, then laid out     *)
(* token by token with line breaks and indentation chosen freely (the      *)
(* cursor moves; every probe notes where it was put).  Expansion then      *)
(* takes the template apart from the outside in and moves its expressions  *)
(* into generated code.  Invariant: in what is generated every expression  *)
(* still has the place where it was written, once.  (Design "reparse",     *)
(* generating code as text to be read again, is refuted.)                  *)
(***************************************************************************)
EXTENDS Text, Integers, FiniteSets, TLC, Json
CONSTANTS Leaves, Frames, Gaps, MaxItems, MaxDepth, Design

VARIABLES stack, size, tree, phase, toks, cur, text, gaps, at, todo, gen
vars == <<stack, size, tree, phase, toks, cur, text, gaps, at, todo, gen>>

Leaf(form, id) == [k |-> "leaf", form |-> form, id |-> id]
Item(as, x) == [as |-> as, x |-> x]
Frame(kind, as, take, id) == [kind |-> kind, as |-> as, take |-> take, id |-> id, items |-> <<>>]
Top == stack[Len(stack)]
AddTo(st, it) == [st EXCEPT ![Len(st)].items = Append(@, it)]
One == {"let", "closure", "some", "mapped", "inner"}
Room == /\ ~(Top.kind \in One /\ Len(Top.items) = 1)
        /\ ~(Top.kind \in {"if", "match"} /\ Len(Top.items) = 3)
(* the ways a call can be malformed *)
Flaws == {"badvoid", "badclass", "badname", "badmiss", "badrest"}
Mistakes == {"nope", "type", "lint"}
Slots == CASE Top.kind = "el" -> {"child", "value", "name", "flag"}
           [] Top.kind = "void" -> {"value", "name", "flag"}
           [] Top.kind = "comp" -> {"child", "arg", "opt"}
           [] Top.kind \in {"badclass", "badname"} -> {"value"}
           [] Top.kind = "badmiss" -> {"opt"}
           [] OTHER -> {"child"}
Free(as) == ~(as \in {"arg", "opt"} /\ \E j \in 1..Len(Top.items) : Top.items[j].as = as)

RECURSIVE Wrong(_)
Wrong(n) == IF n.k = "leaf" THEN n.form \in Mistakes
            ELSE n.k \in Flaws \/ \E j \in 1..Len(n.items) : Wrong(n.items[j].x)
Wanted == Leaves \cap Mistakes # {} \/ Frames \cap Flaws # {}      \* exactly one thing is wrong
Already == \E j \in 1..Len(stack) : stack[j].kind \in Flaws \/ \E h \in 1..Len(stack[j].items) : Wrong(stack[j].items[h].x)

(* ------------------------------------------------------------------ tokens *)
T(t) == <<[t |-> t, id |-> 0, off |-> 0]>>
P(t, id) == <<[t |-> t, id |-> id, off |-> 0]>>
Num(id) == ToString(id)
LeafToks(n) ==
  CASE n.form = "at"   -> P("at(" \o Num(n.id) \o ")", n.id)
    [] n.form = "sum"  -> T("1") \o T("+") \o P("at(" \o Num(n.id) \o ")", n.id)
    [] n.form = "not"  -> T("!") \o T("id(") \o P("at(" \o Num(n.id) \o ")", n.id) \o T(")")
    [] n.form = "blk"  -> T("{") \o T("let x =") \o P("at(" \o Num(n.id) \o ")", n.id) \o T(";") \o T("x") \o T("}")
    [] n.form = "fmt"  -> T("format!(\"{}\",") \o P("at(" \o Num(n.id) \o ")", n.id) \o T(")")
    [] n.form = "line" -> <<[t |-> "lc(line!(),column!()," \o Num(n.id) \o ")", id |-> n.id, off |-> 11]>>
    [] n.form = "str"  -> T("\"text\"")
    [] n.form = "nope" -> T("1 +") \o P("nope" \o Num(n.id), n.id)
    [] n.form = "type" -> T("num(") \o P("true", n.id) \o T(")")
    [] n.form = "lint" -> T("{") \o T("let") \o P("unused" \o Num(n.id), n.id) \o T("=") \o T("1; 2") \o T("}")

RECURSIVE Toks(_)
RECURSIVE Listed(_, _)
ItemToks(i) ==
  CASE i.as = "child" -> Toks(i.x)
    [] i.as = "value" -> T("title") \o T("=") \o Toks(i.x)
    [] i.as = "arg"   -> T("x") \o T("=") \o Toks(i.x)
    [] i.as = "opt"   -> T("y") \o T("=") \o Toks(i.x)
    [] i.as = "name"  -> T("id(") \o Toks(i.x) \o T(")") \o T("=") \o T("\"v\"")
    [] i.as = "flag"  -> T("checked =") \o T("bool!(") \o (IF i.x.k = "leaf" /\ i.x.form \in {"at", "line"}
                           THEN T("0 <") \o Toks(i.x) ELSE T("0 < len(") \o Toks(i.x) \o T(")")) \o T(")")
Listed(q, j) == IF j > Len(q) THEN <<>> ELSE ItemToks(q[j]) \o (IF j < Len(q) THEN T(",") ELSE <<>>) \o Listed(q, j + 1)
Call(m, n) == P(m \o "!(", n.id) \o Listed(n.items, 1) \o P(")", n.id + 1)
Arm(n, j) == Toks(n.items[j].x)
Cond(n, j) == P("at(" \o Num(n.id + j) \o ")", n.id + j)
RECURSIVE Ifs(_, _)
Ifs(n, j) == T("if") \o T(IF j = n.take THEN "0 <" ELSE "0 ==") \o Cond(n, j) \o T("{") \o Arm(n, j) \o T("}")
             \o (IF j < Len(n.items) THEN T("else") \o Ifs(n, j + 1) ELSE <<>>)
RECURSIVE Arms(_, _)
Arms(n, j) == IF j > Len(n.items) THEN T("_ => \"never\"")
              ELSE T("_ if " \o (IF j = n.take THEN "0 <" ELSE "0 ==")) \o Cond(n, j) \o T("=>") \o Arm(n, j) \o T(",")
                   \o Arms(n, j + 1)
Toks(n) ==
  CASE n.k = "leaf" -> LeafToks(n)
    [] n.k = "el" -> Call("div", n)
    [] n.k = "void" -> Call("input", n)
    [] n.k \in {"frag", "classes", "comp"} -> Call(n.k, n)
    [] n.k = "inner" -> Call("render", n)
    [] n.k = "let" -> T("{ let q =") \o Arm(n, 1) \o T("; q }")
    [] n.k = "closure" -> T("(||") \o Arm(n, 1) \o T(")()")
    [] n.k = "some" -> T("Some(") \o Arm(n, 1) \o T(")")
    [] n.k = "mapped" -> T("iter!(") \o T("(0..1).map(|_|") \o Arm(n, 1) \o T("))")
    [] n.k = "iter" -> T("frag!(iter!(\"-\", [") \o P("at(" \o Num(n.id) \o ")", n.id) \o T("]),") \o Listed(n.items, 1) \o T(")")
    [] n.k = "if" -> T("frag_match!(") \o Ifs(n, 1) \o T(")")
    [] n.k = "match" -> T("frag_match!(match") \o P("at(" \o Num(n.id) \o ")", n.id) \o T("{") \o Arms(n, 1) \o T("})")
    [] n.k = "badvoid" -> Call("br", n)
    [] n.k = "badclass" -> Call("classes", n)
    [] n.k \in {"badname", "badmiss"} -> Call("comp", n)
    [] n.k = "badrest" -> Call("norest", n)

(* ---------------------------------------------------------------- building *)
Init == /\ stack = <<>> /\ size = 0 /\ tree = Leaf("str", 0) /\ phase = "build" /\ toks = <<>> /\ cur = <<1, 1>>
        /\ text = "" /\ gaps = <<>> /\ at = <<>> /\ todo = <<>> /\ gen = <<>>
rest == <<toks, cur, text, gaps, at, todo, gen>>
Start == /\ phase = "build" /\ stack = <<>> /\ size = 0
         /\ \E k \in Frames, t \in 1..2 : stack' = <<Frame(k, "child", t, 10)>>
         /\ size' = 1 /\ UNCHANGED <<tree, phase, rest>>
NextId == 10 * (size + 1)
Add == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems /\ Room
       /\ \E form \in Leaves, as \in Slots :
            /\ Free(as)
            /\ (form \in Mistakes => ~Already)
            /\ (as = "flag" => form \in {"at", "line", "blk"})
            /\ stack' = AddTo(stack, Item(as, Leaf(form, NextId)))
       /\ size' = size + 1 /\ UNCHANGED <<tree, phase, rest>>
Open == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems /\ Len(stack) < MaxDepth /\ Room
        /\ \E k \in Frames, as \in Slots \ {"flag"}, t \in 1..2 :
             /\ Free(as) /\ (k \in Flaws => ~Already)
             /\ (k \notin {"if", "match"} => t = 1)
             /\ stack' = Append(stack, Frame(k, as, t, NextId))
        /\ size' = size + 1 /\ UNCHANGED <<tree, phase, rest>>
Done(f) == [k |-> f.kind, items |-> f.items, take |-> f.take, id |-> f.id]
Full(f) == /\ f.kind \in One \cup {"if", "match"} \cup Flaws => Len(f.items) >= 1
           /\ f.kind = "comp" => \E j \in 1..Len(f.items) : f.items[j].as = "arg"
           /\ f.kind = "badmiss" => Len(f.items) = 1
Close == /\ phase = "build" /\ Len(stack) > 1 /\ Full(Top)
         /\ stack' = AddTo(SubSeq(stack, 1, Len(stack) - 1), Item(Top.as, Done(Top)))
         /\ UNCHANGED <<size, tree, phase, rest>>
Finish == /\ phase = "build" /\ Len(stack) = 1 /\ Full(Top)
          /\ Wrong(Done(Top)) = Wanted
          /\ tree' = Done(Top) /\ stack' = <<>> /\ phase' = "layout" /\ toks' = Toks(Done(Top))
          /\ UNCHANGED <<size, cur, text, gaps, at, todo, gen>>

(* --------------------------------------------------------------- laying out *)
Gap(g) == CASE g = "tight" -> "" [] g = "space" -> " " [] g = "line" -> "\n" [] g = "indent" -> "\n    "
            [] g = "note" -> " // note\n  " [] g = "wide" -> "\n\n         "
Move(c, g) == CASE g = "tight" -> c
                [] g = "space" -> <<c[1], c[2] + 1>>
                [] g = "line" -> <<c[1] + 1, 1>>
                [] g = "indent" -> <<c[1] + 1, 5>>
                [] g = "note" -> <<c[1] + 1, 3>>
                [] g = "wide" -> <<c[1] + 2, 10>>
Put(c, t) == <<c[1], c[2] + Len(t)>>
Lay == /\ phase = "layout" /\ toks # <<>>
       /\ \E g \in Gaps :
            LET h == Head(toks)
                c == Move(cur, g) IN
            /\ text' = text \o Gap(g) \o h.t /\ gaps' = Append(gaps, g)
            /\ cur' = Put(c, h.t) /\ toks' = Tail(toks)
            /\ at' = IF h.id = 0 THEN at ELSE Append(at, <<h.id, c[1], c[2] + h.off>>)
       /\ UNCHANGED <<stack, size, tree, phase, todo, gen>>
Laid == /\ phase = "layout" /\ toks = <<>> /\ phase' = "expand"
        /\ todo' = <<[x |-> tree, call |-> <<1, 1>>]>> /\ UNCHANGED <<stack, size, tree, toks, cur, text, gaps, at, gen>>

(* ---------------------------------------------------------------- expanding *)
Where(id) == LET s == {j \in 1..Len(at) : at[j][1] = id} IN
             IF s = {} THEN <<0, 0>> ELSE LET j == CHOOSE j \in s : TRUE IN <<at[j][2], at[j][3]>>
Has(n) == n.form # "str"
Kept(id, call) == IF Design = "reparse" THEN <<id, call[1], call[2]>> ELSE <<id, Where(id)[1], Where(id)[2]>>
IsAttr(i) == i.as \in {"value", "name", "flag"}
Hoisted(n) == SelectSeq(n.items, IsAttr) \o SelectSeq(n.items, LAMBDA i : ~IsAttr(i))    \* attributes come first
Conds(n, call) == IF n.k \in {"if", "match"} THEN [j \in 1..Len(n.items) |-> Kept(n.id + j, call)] ELSE <<>>
Own(n, call) == (IF n.k \in {"match", "iter"} THEN <<Kept(n.id, call)>> ELSE <<>>) \o Conds(n, call)
Calls == {"el", "void", "frag", "classes", "comp", "inner"}
Expand == /\ phase = "expand" /\ todo # <<>>
          /\ LET h == Head(todo) IN
             IF h.x.k = "leaf"
             THEN gen' = (IF Has(h.x) THEN Append(gen, Kept(h.x.id, h.call)) ELSE gen) /\ todo' = Tail(todo)
             ELSE LET c == IF h.x.k \in Calls THEN Where(h.x.id) ELSE h.call
                      q == Hoisted(h.x) IN
                  /\ todo' = [j \in 1..Len(q) |-> [x |-> q[j].x, call |-> c]] \o Tail(todo)
                  /\ gen' = gen \o Own(h.x, c)
          /\ UNCHANGED <<stack, size, tree, phase, toks, cur, text, gaps, at>>
Out == phase = "expand" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<stack, size, tree, toks, cur, text, gaps, at, todo, gen>>

Next == Start \/ Add \/ Open \/ Close \/ Finish \/ Lay \/ Laid \/ Expand \/ Out
Spec == Init /\ [][Next]_vars

(* which probes run *)
RECURSIVE Runs(_)
Ran(q) == UNION {Runs(q[j].x) : j \in 1..Len(q)}
Runs(n) == CASE n.k = "leaf" -> IF n.form = "str" THEN {} ELSE {n.id}
             [] n.k = "if" -> LET m == IF n.take > Len(n.items) THEN Len(n.items) ELSE n.take IN
                              {n.id + j : j \in 1..m} \cup (IF n.take > Len(n.items) THEN {} ELSE Runs(n.items[m].x))
             [] n.k = "match" -> LET m == IF n.take > Len(n.items) THEN Len(n.items) ELSE n.take IN
                              {n.id} \cup {n.id + j : j \in 1..m}
                              \cup (IF n.take > Len(n.items) THEN {} ELSE Runs(n.items[m].x))
             [] n.k = "iter" -> {n.id} \cup Ran(n.items)
             [] OTHER -> Ran(n.items)
RECURSIVE Probes(_)
Probes(n) == IF n.k = "leaf" THEN IF n.form = "str" THEN {} ELSE {n.id}
             ELSE (IF n.k \in {"if", "match"} THEN {n.id + j : j \in 1..Len(n.items)} ELSE {})
                  \cup (IF n.k \in {"match", "iter"} THEN {n.id} ELSE {})
                  \cup UNION {Probes(n.items[j].x) : j \in 1..Len(n.items)}
(* the one mistake, or the extent of the one malformed call *)
RECURSIVE Fault(_)
Fault(n) == IF n.k = "leaf" THEN IF n.form \in Mistakes THEN {n.id} ELSE {}
            ELSE (IF n.k \in Flaws THEN {n.id, n.id + 1} ELSE {}) \cup UNION {Fault(n.items[j].x) : j \in 1..Len(n.items)}

Stays == phase = "done" =>
  /\ Len(gen) = Cardinality(Probes(tree))
  /\ \A j \in 1..Len(gen) : /\ gen[j][1] \in Probes(tree)
                            /\ <<gen[j][2], gen[j][3]>> = Where(gen[j][1])
Emit == phase = "done" => PrintT(ToJson([tree |-> tree, gaps |-> gaps, text |-> text, runs |-> Runs(tree), fault |-> Fault(tree)]))
=============================================================================
