------------------------------- MODULE Carry -------------------------------
(***************************************************************************)
(* What markup asks of the values put in it, and what may be done with it. *)
(* Markup is built around values of many types.  Whether it may be sent to *)
(* another thread, shared, kept for good, or used after the block, or the  *)
(* statement, it was made in is then decided as a compiler does it: by     *)
(* taking its type apart, layer by layer, down to the values it holds.     *)
(* Invariant: the answer is that of the values alone; being in a template  *)
(* never adds a demand and never lifts one.                                *)
(***************************************************************************)
EXTENDS Text, Integers, FiniteSets, TLC, Json
CONSTANTS Kinds,       \* kinds of values
          Frames,      \* kinds of markup
          MaxItems, MaxDepth

VARIABLES stack, size, tree, phase, todo, ask, res
vars == <<stack, size, tree, phase, todo, ask, res>>

(* What a value of each kind can bear *)
All == {"send", "sync", "static", "block", "stmt"}
Bears(kind) ==
  CASE kind \in {"lit", "own", "zst", "huge", "opaque", "pinned", "packed", "genss"} -> All
    [] kind \in {"rc", "rawptr", "dyn"} -> All \ {"send", "sync"}
    [] kind \in {"cell", "dynsend"} -> All \ {"sync"}
    [] kind = "guard"   -> All \ {"send"}
    [] kind = "ref"     -> All \ {"static", "block"}
    [] kind = "mutref"  -> All \ {"static", "block"}
    [] kind = "refcell" -> {"stmt"}
    [] kind = "inv"     -> {"send", "stmt"}
    [] kind = "tmp"     -> {"send", "sync"}             \* borrows from a temporary value
    [] kind = "gen"     -> {"block", "stmt"}            \* of a type of which only Render is known
    [] kind = "gens"    -> {"send", "block", "stmt"}
(* A closure that makes the value each time holds only what the value borrows *)
Made(kind) == IF kind \in {"ref", "refcell"} THEN Bears(kind) ELSE All
CanMake == {"lit", "own", "zst", "huge", "opaque", "pinned", "packed", "rc", "rawptr", "dyn", "cell", "guard", "ref",
            "refcell"}
(* nothing but rendering is known of these *)
Opaque == {"gen", "gens", "genss", "opaque", "lit"}

Leaf(kind, how, id) == [k |-> "leaf", kind |-> kind, how |-> how, id |-> id]
Item(as, x) == [as |-> as, x |-> x]
Frame(kind, as, take) == [kind |-> kind, as |-> as, take |-> take, items |-> <<>>]
Top == stack[Len(stack)]
AddTo(st, it) == [st EXCEPT ![Len(st)].items = Append(@, it)]
One == {"some", "map", "let", "closure"}
Room == ~(Top.kind \in One /\ Len(Top.items) = 1)
Slots == CASE Top.kind = "el" -> {"child", "value", "name", "flag", "off"}
           [] Top.kind = "void" -> {"value", "name", "flag", "off"}
           [] Top.kind = "comp" -> {"child", "arg"}
           [] OTHER -> {"child"}
Free(as) == ~(as = "arg" /\ \E j \in 1..Len(Top.items) : Top.items[j].as = "arg")
In(S) == \E j \in 1..Len(stack) : stack[j].kind \in S
Possible(kind) == /\ In({"map"}) => kind \in CanMake
                  /\ In({"closure"}) => kind # "mutref"      \* lent only while the closure runs
                  /\ In({"branch", "match", "let", "closure"}) => kind # "tmp"      \* which ends before the temporary does
Same == {"iter", "delim"}   \* items of one type only: one kind, or made by the same expression
Single == {"zst", "gen", "gens", "genss"}                   \* each of a type of its own
Fits(kind) == IF Top.kind \in Same /\ kind \in Single THEN Top.items = <<>>
              ELSE Top.kind \in Same => \A j \in 1..Len(Top.items) : Top.items[j].x.kind = kind

Init == /\ stack = <<>> /\ size = 0 /\ tree = Leaf("lit", "is", 0) /\ phase = "build" /\ todo = <<>>
        /\ ask = "" /\ res = ""
Start == /\ phase = "build" /\ stack = <<>> /\ size = 0
         /\ \E k \in Frames : stack' = <<Frame(k, "child", 1)>>
         /\ size' = 1 /\ UNCHANGED <<tree, phase, todo, ask, res>>
Add == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems /\ Room
       /\ \E kind \in Kinds, as \in Slots, how \in {"is", "raw", "disp"} :
            /\ Free(as) /\ Possible(kind) /\ Fits(kind)
            /\ how # "is" => kind \notin Opaque /\ Top.kind \notin Same
            /\ stack' = AddTo(stack, Item(as, Leaf(kind, how, size)))
       /\ size' = size + 1 /\ UNCHANGED <<tree, phase, todo, ask, res>>
Open == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems /\ Len(stack) < MaxDepth /\ Room /\ Top.kind \notin Same
        /\ \E k \in Frames, as \in Slots, t \in 1..3 :
             Free(as) /\ stack' = Append(stack, Frame(k, as, t))
        /\ size' = size + 1 /\ UNCHANGED <<tree, phase, todo, ask, res>>
Done(f) == [k |-> f.kind, items |-> f.items, take |-> f.take]
Full(f) == /\ f.kind \in One => Len(f.items) = 1
           /\ f.kind \in Same \cup {"branch", "match"} => Len(f.items) >= 1
           /\ f.kind = "comp" => \E j \in 1..Len(f.items) : f.items[j].as = "arg"
Close == /\ phase = "build" /\ Len(stack) > 1 /\ Full(Top)
         /\ stack' = AddTo(SubSeq(stack, 1, Len(stack) - 1), Item(Top.as, Done(Top)))
         /\ UNCHANGED <<size, tree, phase, todo, ask, res>>
Finish == /\ phase = "build" /\ Len(stack) = 1 /\ Full(Top)
          /\ tree' = Done(Top) /\ stack' = <<>> /\ phase' = "ready" /\ UNCHANGED <<size, todo, ask, res>>

(* ------------------------------------------------------ taking types apart *)
Ask == /\ phase = "ready" /\ \E a \in All : ask' = a
       /\ phase' = "solve" /\ todo' = <<[x |-> tree, made |-> FALSE]>> /\ UNCHANGED <<stack, size, tree, res>>
Solve ==
  /\ phase = "solve" /\ todo # <<>>
  /\ LET h == Head(todo) IN
     IF h.x.k = "leaf"
     THEN IF ask \in (IF h.made THEN Made(h.x.kind) ELSE Bears(h.x.kind))
          THEN todo' = Tail(todo) /\ UNCHANGED <<phase, res>>
          ELSE phase' = "done" /\ res' = "no" /\ UNCHANGED todo
     ELSE /\ todo' = [j \in 1..Len(h.x.items) |-> [x |-> h.x.items[j].x, made |-> h.made \/ h.x.k = "map"]]
                     \o Tail(todo)
          /\ UNCHANGED <<phase, res>>
  /\ UNCHANGED <<stack, size, tree, ask>>
Yes == phase = "solve" /\ todo = <<>> /\ phase' = "done" /\ res' = "yes" /\ UNCHANGED <<stack, size, tree, todo, ask>>

Next == Start \/ Add \/ Open \/ Close \/ Finish \/ Ask \/ Solve \/ Yes
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ what is meant *)
RECURSIVE Held(_)
Held(n) == IF n.k = "leaf" THEN {n.kind}
           ELSE IF n.k = "map" THEN {}
           ELSE UNION {Held(n.items[j].x) : j \in 1..Len(n.items)}
RECURSIVE Borrowed(_, _)
Borrowed(n, made) == IF n.k = "leaf" THEN IF made /\ n.kind \in {"ref", "refcell"} THEN {n.kind} ELSE {}
                     ELSE UNION {Borrowed(n.items[j].x, made \/ n.k = "map") : j \in 1..Len(n.items)}
Can(n) == {a \in All : \A kind \in Held(n) \cup Borrowed(n, FALSE) : a \in Bears(kind)}

Show(n) == "<" \o ToString(n.id) \o "&"
Is(n, as) == SelectSeq(n.items, LAMBDA i : i.as = as)
Not(n, as) == SelectSeq(n.items, LAMBDA i : i.as # as)
RECURSIVE Means(_)
RECURSIVE AttrOf(_)
Over(q) == Cat([j \in 1..Len(q) |-> Means(q[j].x)])
Joined(q, sep) == Join([j \in 1..Len(q) |-> Means(q[j].x)], sep)
AttrOf(i) == CASE i.as = "value" -> " title=\"" \o Means(i.x) \o "\""
               [] i.as = "name" -> " " \o Means(i.x) \o "=\"v\""
               [] i.as = "flag" -> " " \o Means(i.x)
               [] i.as = "off" -> ""
Means(n) ==
  CASE n.k = "leaf" -> IF n.how = "raw" THEN Show(n) ELSE Esc(Show(n))
    [] n.k = "el" -> "<p" \o Cat([j \in 1..Len(Not(n, "child")) |-> AttrOf(Not(n, "child")[j])]) \o ">"
                     \o Over(Is(n, "child")) \o "</p>"
    [] n.k = "void" -> "<br" \o Cat([j \in 1..Len(n.items) |-> AttrOf(n.items[j])]) \o ">"
    [] n.k \in {"frag", "iter", "some", "let", "closure"} -> Over(n.items)
    [] n.k = "map" -> Over(n.items) \o Over(n.items)          \* made twice
    [] n.k = "delim" -> Joined(n.items, "--")
    [] n.k = "classes" -> Joined(n.items, " ")
    [] n.k \in {"branch", "match"} -> Means(n.items[1 + (n.take % Len(n.items))].x)
    [] n.k = "comp" -> "<b title=\"" \o Over(Is(n, "arg")) \o "\">" \o Over(Is(n, "child")) \o "</b>"

Decides == phase = "done" => (res = "yes" <=> ask \in Can(tree))
Emit == phase = "ready" => PrintT(ToJson([tree |-> tree, can |-> Can(tree), text |-> Means(tree)]))
=============================================================================
