-------------------------------- MODULE Strip --------------------------------
(***************************************************************************)
(* Conditional compilation.  Arms, statements, the value that ends a       *)
(* block, components and their parameters carry attributes; what is        *)
(* configured out is as if it had not been written.                        *)
(* But a template is expanded before its parts are configured: the matches *)
(* in it have already been given a slot for every arm, and the compiler    *)
(* must be able to tell the type of each slot afterwards.                  *)
(* Invariants: every slot has a type, and the text is that of the tree     *)
(* without what was configured out.  Designs that leave slots bare, or     *)
(* that let the arms share one slot, are refuted.                          *)
(***************************************************************************)
EXTENDS Text, Integers, FiniteSets, TLC, Json
CONSTANTS Frames,      \* kinds of nodes
          Leaves,      \* kinds of leaves
          Lists,       \* lists of attributes that may be used, by number
          Pats,        \* patterns of arms
          Values,      \* values that are matched
          MaxItems, MaxDepth,
          Slotting     \* "fallback", "bare" or "shared"

VARIABLES stack, size, tree, phase, now
vars == <<stack, size, tree, phase, now>>

(* ------------------------------------------------------------- attributes *)
On == [op |-> "on"]
Off == [op |-> "off"]
No(c) == [op |-> "not", c |-> c]
AllOf(s) == [op |-> "all", s |-> s]
AnyOf(s) == [op |-> "any", s |-> s]
RECURSIVE Holds(_)
Holds(c) == CASE c.op = "on" -> TRUE [] c.op = "off" -> FALSE [] c.op = "not" -> ~Holds(c.c)
              [] c.op = "all" -> \A j \in 1..Len(c.s) : Holds(c.s[j])
              [] c.op = "any" -> \E j \in 1..Len(c.s) : Holds(c.s[j])
Cfg(c) == [a |-> "cfg", c |-> c]
If(c, a) == [a |-> "cfg_attr", c |-> c, then |-> a]
Allow == [a |-> "allow"]
RECURSIVE Keeps(_)
Keeps(a) == CASE a.a = "allow" -> TRUE
              [] a.a = "cfg" -> Holds(a.c)
              [] a.a = "cfg_attr" -> Holds(a.c) => Keeps(a.then)
Kept(q) == \A j \in 1..Len(q) : Keeps(q[j])
AttrList(n) ==
  CASE n = 0 -> <<>>
    [] n = 1 -> <<Cfg(On)>>
    [] n = 2 -> <<Cfg(Off)>>
    [] n = 3 -> <<Allow>>
    [] n = 4 -> <<Cfg(No(On))>>
    [] n = 5 -> <<Cfg(No(Off))>>
    [] n = 6 -> <<Cfg(AllOf(<<On, On>>))>>
    [] n = 7 -> <<Cfg(AllOf(<<On, Off>>))>>
    [] n = 8 -> <<Cfg(AnyOf(<<Off, On>>))>>
    [] n = 9 -> <<Cfg(AnyOf(<<Off, No(On)>>))>>
    [] n = 10 -> <<If(On, Cfg(Off))>>
    [] n = 11 -> <<If(Off, Cfg(Off))>>
    [] n = 12 -> <<If(On, Cfg(On))>>
    [] n = 13 -> <<If(On, If(On, Cfg(Off)))>>
    [] n = 14 -> <<Cfg(On), Cfg(Off)>>
    [] n = 15 -> <<Cfg(On), Allow, Cfg(On)>>
    [] n = 16 -> <<Allow, Cfg(Off)>>
    [] n = 17 -> <<If(On, Allow), Cfg(Off), Cfg(On)>>
    [] n = 18 -> <<If(Off, Cfg(On)), If(On, Allow)>>
    [] n = 19 -> <<Cfg(No(AnyOf(<<AllOf(<<>>), Off>>)))>>

(* -------------------------------------------------------------- building *)
(* what carries attributes: an arm, a statement, the value that ends a block, a parameter; each holds one thing *)
Bearers == {"arm", "let", "tail", "arg"}
Leaf(kind, id) == [k |-> "leaf", kind |-> kind, id |-> id]
Frame(kind, q, pat, v) == [kind |-> kind, attrs |-> q, pat |-> pat, v |-> v, items |-> <<>>]
Top == stack[Len(stack)]
AddTo(st, x) == [st EXCEPT ![Len(st)].items = Append(@, x)]
Done(f) == [k |-> f.kind, attrs |-> f.attrs, pat |-> f.pat, v |-> f.v, items |-> f.items, on |-> Kept(f.attrs)]
(* inside something configured out anything may stand that can be read *)
Dead == \E j \in 1..Len(stack) : stack[j].kind \in Bearers /\ ~Kept(stack[j].attrs)
Room == /\ Top.kind \in Bearers => Len(Top.items) = 0
        /\ Top.kind \in {"if", "comp"} => Len(Top.items) < 3
(* what may stand in what *)
Takes(f, k) == CASE f = "match" -> k = "arm"
                 [] f = "block" -> k \in {"let", "tail", "leaf", "match", "el", "if", "comp"}
                 [] f = "comp" -> k \notin {"arm", "let", "tail"}
                 [] OTHER -> k \notin Bearers
(* a block is statements first and one value, which ends it *)
Ended == Top.kind = "block" /\ Top.items # <<>> /\ Top.items[Len(Top.items)].k # "let"
Matches(p, v) == CASE p = "any" -> TRUE [] p = "zero" -> v = 0 [] p = "one" -> v = 1 [] p = "low" -> v \in {0, 1}
                   [] p = "guard" -> v = 0 [] p = "big" -> v >= 1
Covered(f) == f.kind = "match" => \E j \in 1..Len(f.items) : f.items[j].pat = "any" /\ Kept(f.items[j].attrs)
(* a statement binds the name that ends the block; the one kept last is meant *)
Whole(f) == /\ f.kind \in Bearers => Len(f.items) = 1
            /\ f.kind = "if" => Len(f.items) \in 1..3
            /\ f.kind = "block" => /\ f.items # <<>>
                                   /\ Ended \/ \E j \in 1..Len(f.items) : f.items[j].k = "let" /\ Kept(f.items[j].attrs)
            /\ ~Dead => Covered(f)

Init == stack = <<>> /\ size = 0 /\ tree = Leaf("str", 0) /\ phase = "build" /\ now = Leaf("str", 0)
Start == /\ phase = "build" /\ stack = <<>> /\ size = 0
         /\ \E k \in Frames \ Bearers, v \in Values : stack' = <<Frame(k, <<>>, "", v)>>
         /\ size' = 1 /\ UNCHANGED <<tree, phase, now>>
Add == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems /\ Room /\ ~Ended /\ Takes(Top.kind, "leaf")
       /\ \E k \in Leaves : (k = "junk" => Dead) /\ stack' = AddTo(stack, Leaf(k, size))
       /\ size' = size + 1 /\ UNCHANGED <<tree, phase, now>>
Open == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems /\ Len(stack) < MaxDepth /\ Room /\ ~Ended
        /\ \E k \in Frames :
             /\ Takes(Top.kind, k)
             /\ \E n \in (IF k \in (Bearers \cup {"comp"}) THEN Lists ELSE {0}),
                   p \in (IF k = "arm" THEN Pats ELSE IF k = "arg" THEN {"given", "default", "maybe"} ELSE {""}),
                   v \in (IF k \in {"match", "if"} THEN Values ELSE {0}) :
                  stack' = Append(stack, Frame(k, AttrList(n), p, v))
        /\ size' = size + 1 /\ UNCHANGED <<tree, phase, now>>
(* A component that is configured out has a twin that is not.  Arguments are for the parameters that are kept,
   unless these have a default (always there, or itself conditional) *)
Close == /\ phase = "build" /\ Len(stack) > 1 /\ Whole(Top)
         /\ stack' = AddTo(SubSeq(stack, 1, Len(stack) - 1), Done(Top))
         /\ UNCHANGED <<size, tree, phase, now>>
Finish == /\ phase = "build" /\ Len(stack) = 1 /\ Whole(Top)
          /\ tree' = Done(Top) /\ stack' = <<>> /\ phase' = "written" /\ now' = Done(Top) /\ UNCHANGED size

(* -------------------------------------- expanding, configuring, running *)
RECURSIVE Expand(_)
Expand(n) ==
  IF n.k = "leaf" THEN n
  ELSE LET q == [j \in 1..Len(n.items) |-> Expand(n.items[j])] IN
       IF n.k = "match"
       THEN [n EXCEPT !.k = "slots",
                      !.items = [j \in 1..Len(q) |-> [k |-> "arm", attrs |-> q[j].attrs, pat |-> q[j].pat, v |-> 0,
                                                      items |-> q[j].items,
                                                      slot |-> IF Slotting = "shared" THEN 1 ELSE j]]]
               @@ [slots |-> [j \in 1..(IF Slotting = "shared" THEN 1 ELSE Len(q)) |->
                               IF Slotting = "fallback" /\ q[j].attrs # <<>> THEN {"unit"} ELSE {}]]
       ELSE [n EXCEPT !.items = q]
(* the types a slot is given; a shared one is given all of them *)
TypeOf(x) == IF x.k = "leaf" THEN x.kind ELSE x.k
RECURSIVE Configure(_)
Configure(n) ==
  IF n.k = "leaf" THEN n
  ELSE LET kept == SelectSeq(n.items, LAMBDA x : x.k \in Bearers => Kept(x.attrs))
           q == [j \in 1..Len(kept) |-> Configure(kept[j])] IN
       IF n.k = "slots"
       THEN [n EXCEPT !.items = q,
                      !.slots = [j \in 1..Len(n.slots) |->
                                   LET given == {TypeOf(q[i].items[1]) : i \in {i \in 1..Len(q) : q[i].slot = j}} IN
                                   IF given = {} THEN n.slots[j] ELSE given]]
       ELSE IF n.k = "block" /\ n.items[Len(n.items)].k = "tail" /\ ~Kept(n.items[Len(n.items)].attrs)
       THEN [n EXCEPT !.items = Append(q, Leaf("unit", 0))]     \* nothing ends it any more
       ELSE IF n.k = "comp" THEN [n EXCEPT !.items = q, !.pat = IF Kept(n.attrs) THEN "first" ELSE "twin"]
       ELSE [n EXCEPT !.items = q]
Show(n) == "<" \o ToString(n.id) \o "&"
Plain(n) == CASE n.kind = "str" -> Esc(Show(n)) [] n.kind = "raw" -> Show(n) [] n.kind = "num" -> ToString(n.id)
              [] n.kind = "unit" -> "" [] n.kind = "name" -> Esc(Show(n)) [] n.kind = "junk" -> "!"
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Do(_)
Every(q) == Cat([j \in 1..Len(q) |-> Do(q[j])])
Do(n) ==
  CASE n.k = "leaf" -> Plain(n)
    [] n.k = "el" -> "<p>" \o Every(n.items) \o "</p>"
    [] n.k = "if" -> IF n.v < Len(n.items) THEN Do(n.items[n.v + 1]) ELSE ""
    [] n.k = "block" -> Do(n.items[Len(n.items)])
    [] n.k \in Bearers -> Do(n.items[1])
    [] n.k = "comp" -> LET tag == IF n.pat = "first" THEN "b>" ELSE "i>" IN
                       "<" \o tag \o Every(SelectSeq(n.items, LAMBDA x : x.k = "arg"))
                           \o Every(SelectSeq(n.items, LAMBDA x : x.k # "arg")) \o "</" \o tag
    [] n.k = "slots" ->
         (* the arm taken fills its slot, and the slots are rendered one after another *)
         LET taken == n.items[Least({j \in 1..Len(n.items) : Matches(n.items[j].pat, n.v)})] IN
         Cat([s \in 1..Len(n.slots) |-> IF s = taken.slot THEN Do(taken) ELSE ""])

Expands == phase = "written" /\ phase' = "expanded" /\ now' = Expand(tree) /\ UNCHANGED <<stack, size, tree>>
Configures == phase = "expanded" /\ phase' = "ready" /\ now' = Configure(now) /\ UNCHANGED <<stack, size, tree>>
Next == Start \/ Add \/ Open \/ Close \/ Finish \/ Expands \/ Configures
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- what is meant *)
RECURSIVE Means(_)
All(q) == Cat([j \in 1..Len(q) |-> Means(q[j])])
Means(n) ==
  CASE n.k = "leaf" -> Plain(n)
    [] n.k = "el" -> "<p>" \o All(n.items) \o "</p>"
    [] n.k = "if" -> IF n.v < Len(n.items) THEN Means(n.items[n.v + 1]) ELSE ""
    [] n.k \in Bearers -> Means(n.items[1])
    [] n.k = "block" -> LET q == SelectSeq(n.items, LAMBDA x : x.k # "let" \/ Kept(x.attrs)) IN
                        CASE n.items[Len(n.items)].k = "tail" /\ ~Kept(n.items[Len(n.items)].attrs) -> ""
                          [] OTHER -> Means(q[Len(q)])
    [] n.k = "comp" -> LET args == SelectSeq(n.items, LAMBDA x : x.k = "arg" /\ Kept(x.attrs))
                           rest == SelectSeq(n.items, LAMBDA x : x.k # "arg")
                           tag == IF Kept(n.attrs) THEN "b>" ELSE "i>" IN
                       "<" \o tag \o All(args) \o All(rest) \o "</" \o tag
    [] n.k = "match" -> LET q == SelectSeq(n.items, LAMBDA x : Kept(x.attrs) /\ Matches(x.pat, n.v)) IN Means(q[1])

RECURSIVE Typed(_)
Typed(n) == n.k = "leaf" \/ ( /\ \A j \in 1..Len(n.items) : Typed(n.items[j])
                              /\ n.k = "slots" => \A s \in 1..Len(n.slots) : Cardinality(n.slots[s]) = 1 )
Compiles == phase = "ready" => Typed(now)
SameText == phase = "ready" => Do(now) = Means(tree)
Emit == phase = "ready" => PrintT(ToJson([tree |-> tree, text |-> Means(tree)]))
=============================================================================
