------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* Which templates are accepted.  Templates are built from every kind of   *)
(* markup macro and component call, well-formed or not; expansion then     *)
(* works them off from the outside in, one macro call at a time, and stops *)
(* with an error at the first malformed one.  Invariant: expansion accepts *)
(* exactly the well-formed templates, wherever the flaw is nested.         *)
(*                                                                         *)
(* An item is [as, x]: as "child" (unnamed), an attribute or argument name *)
(* ("href", "a", ...), or a malformed name ("?path", "?lit", "?index");    *)
(* flag: the value is marked boolean.                                      *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC, Json
CONSTANTS Frames,      \* kinds of frame
          Marks,       \* kinds of item besides frames: leaf, flag (a boolean marker as a child), ...
          Names,       \* names given to attributes and arguments
          MaxItems, MaxDepth

VARIABLES stack, size, tree, phase, todo, res
vars == <<stack, size, tree, phase, todo, res>>

(* components at hand: parameters, those that must be given, rest *)
Components == [c0 |-> [ps |-> {}, req |-> {}, rest |-> FALSE],
               c1 |-> [ps |-> {"a"}, req |-> {"a"}, rest |-> FALSE],
               c2 |-> [ps |-> {"a", "href"}, req |-> {"href"}, rest |-> FALSE],
               cr |-> [ps |-> {"a"}, req |-> {}, rest |-> TRUE],
               crr |-> [ps |-> {"a", "href"}, req |-> {"a"}, rest |-> TRUE],
               crest2 |-> [ps |-> {"a"}, req |-> {}, rest |-> TRUE]]   \* with two rest parameters: no call is well-formed
IsComp(k) == k \in DOMAIN Components
One == {"raw", "block", "closure", "branch", "arm", "iter", "disp", "let", "fn", "tuple", "vec"}  \* hold one piece of markup
Leaf(m) == [k |-> m, items |-> <<>>]
Item(as, flag, x) == [as |-> as, flag |-> flag, x |-> x]
Frame(kind, as) == [kind |-> kind, as |-> as, items |-> <<>>]
Top == stack[Len(stack)]
AddTo(st, it) == [st EXCEPT ![Len(st)].items = Append(@, it)]
Room == ~(Top.kind \in One /\ Len(Top.items) = 1)
Slots == IF Top.kind \in One \cup {"render"} THEN {"child"} ELSE {"child"} \cup Names
Free(as) == ~(IsComp(Top.kind) /\ as # "child" /\ \E j \in 1..Len(Top.items) : Top.items[j].as = as)

Init == stack = <<>> /\ size = 0 /\ tree = Leaf("leaf") /\ phase = "build" /\ todo = <<>> /\ res = ""
Start == /\ phase = "build" /\ stack = <<>> /\ size = 0
         /\ \E k \in Frames : stack' = <<Frame(k, "child")>>
         /\ size' = 1 /\ UNCHANGED <<tree, phase, todo, res>>
Add == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems /\ Room
       /\ \E m \in Marks, as \in Slots :
            /\ Free(as) /\ (m = "mark" => as = "child")    \* a marker by name is a flag
            /\ stack' = AddTo(stack, Item(as, FALSE, Leaf(m)))
       /\ size' = size + 1 /\ UNCHANGED <<tree, phase, todo, res>>
AddFlag == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems
           /\ \E as \in Slots \ {"child"} : Free(as) /\ stack' = AddTo(stack, Item(as, TRUE, Leaf("leaf")))
           /\ size' = size + 1 /\ UNCHANGED <<tree, phase, todo, res>>
Open == /\ phase = "build" /\ stack # <<>> /\ size < MaxItems /\ Len(stack) < MaxDepth /\ Room
        /\ \E k \in Frames, as \in Slots : Free(as) /\ stack' = Append(stack, Frame(k, as))
        /\ size' = size + 1 /\ UNCHANGED <<tree, phase, todo, res>>
Done(f) == [k |-> f.kind, items |-> f.items]
Full(f) == f.kind \in One => Len(f.items) = 1
Close == /\ phase = "build" /\ Len(stack) > 1 /\ Full(Top)
         /\ stack' = AddTo(SubSeq(stack, 1, Len(stack) - 1), Item(Top.as, FALSE, Done(Top)))
         /\ UNCHANGED <<size, tree, phase, todo, res>>
Finish == /\ phase = "build" /\ Len(stack) = 1 /\ Full(Top)
          /\ tree' = Done(Top) /\ stack' = <<>> /\ phase' = "expand" /\ todo' = <<Done(Top)>>
          /\ UNCHANGED <<size, res>>

(* ------------------------------------------------- what is well-formed *)
Bad(as) == SubSeq(as, 1, 1) = "?"
Kids(n) == SelectSeq(n.items, LAMBDA i : i.as = "child")
Named(n) == SelectSeq(n.items, LAMBDA i : i.as # "child")
NameSet(n) == {Named(n)[j].as : j \in 1..Len(Named(n))}
Local(n) ==
  CASE n.k = "el" -> TRUE                      \* any expression may compute an attribute's name
    [] n.k = "void" -> Kids(n) = <<>>
    [] n.k \in {"frag", "classes"} -> Named(n) = <<>>
    [] n.k = "mark" -> FALSE                   \* a boolean marker is no value
    [] IsComp(n.k) -> LET c == Components[n.k] IN
         /\ n.k # "crest2"
         /\ c.rest \/ Kids(n) = <<>>
         /\ \A x \in NameSet(n) : x \in c.ps
         /\ c.req \subseteq NameSet(n)
         /\ \A j \in 1..Len(n.items) : ~n.items[j].flag
    [] OTHER -> TRUE
RECURSIVE WellFormed(_)
WellFormed(n) == Local(n) /\ \A j \in 1..Len(n.items) : WellFormed(n.items[j].x)

RECURSIVE Sum(_, _)
RECURSIVE FaultsIn(_)
FaultsIn(n) == (IF Local(n) THEN 0 ELSE 1) + Sum(n.items, 1)
Sum(q, j) == IF j > Len(q) THEN 0 ELSE FaultsIn(q[j].x) + Sum(q, j + 1)

(* ------------------------------------------------------------ expanding *)
Expand == /\ phase = "expand" /\ todo # <<>>
          /\ LET n == Head(todo) IN
             IF Local(n) THEN todo' = [j \in 1..Len(n.items) |-> n.items[j].x] \o Tail(todo) /\ UNCHANGED <<phase, res>>
             ELSE phase' = "done" /\ res' = "rejected" /\ UNCHANGED todo
          /\ UNCHANGED <<stack, size, tree>>
Accept == phase = "expand" /\ todo = <<>> /\ phase' = "done" /\ res' = "accepted" /\ UNCHANGED <<stack, size, tree, todo>>

Next == Start \/ Add \/ AddFlag \/ Open \/ Close \/ Finish \/ Expand \/ Accept
Spec == Init /\ [][Next]_vars
Decides == phase = "done" => /\ res = "accepted" <=> WellFormed(tree)
                             /\ WellFormed(tree) <=> FaultsIn(tree) = 0
Emit == phase = "done" => PrintT(ToJson([tree |-> tree, ok |-> WellFormed(tree),
                                                faults |-> FaultsIn(tree)]))
=============================================================================
