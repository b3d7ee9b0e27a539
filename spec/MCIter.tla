------------------------------- MODULE MCIter -------------------------------
(***************************************************************************)
(* Rendering a wrapped iterator, step by step: ask for an item, stop at    *)
(* the first "no more", write the separator if there was an item before,   *)
(* render the item.  The iterator is a script of answers and may well      *)
(* offer items again after "no more".  What the machine does is what       *)
(* Markup says an iterator means.                                          *)
(***************************************************************************)
EXTENDS Markup, TLC, Json
CONSTANTS MaxLen, Texts, Seps

VARIABLES node, phase, at, seen, out
vars == <<node, phase, at, seen, out>>

Init == /\ node \in {[k |-> "iter", id |-> 1, sep |-> s, script |-> <<>>] : s \in Seps}
        /\ phase = "script" /\ at = 0 /\ seen = 0 /\ out = <<>>

Grow == /\ phase = "script" /\ Len(node.script) < MaxLen
        /\ \E some \in BOOLEAN, t \in Texts :
             /\ ~some => t = CHOOSE x \in Texts : TRUE
             /\ node' = [node EXCEPT !.script = Append(@, [some |-> some, t |-> t])]
        /\ UNCHANGED <<phase, at, seen, out>>
Start == phase = "script" /\ phase' = "ask" /\ UNCHANGED <<node, at, seen, out>>

Answer == IF at + 1 > Len(node.script) THEN FALSE ELSE node.script[at + 1].some

Ask == /\ phase = "ask"
       /\ at' = at + 1 /\ out' = out \o Ev("N", node.id + at + 1)
       /\ phase' = IF Answer THEN (IF seen > 0 THEN "separate" ELSE "item") ELSE "done"
       /\ UNCHANGED <<node, seen>>
Separate == phase = "separate" /\ out' = out \o Tk(node.sep) /\ phase' = "item" /\ UNCHANGED <<node, at, seen>>
Item == /\ phase = "item"
        /\ out' = out \o Ev("R", node.id + at) \o Tk(Esc(node.script[at].t))
        /\ seen' = seen + 1 /\ phase' = "ask" /\ UNCHANGED <<node, at>>

Next == Grow \/ Start \/ Ask \/ Separate \/ Item
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask \/ Separate \/ Item)

Whole == Ren(node, <<>>)
Prefix == phase # "script" => LET a == TextOf(out) b == TextOf(Whole) IN
  Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Done == phase = "done" => Norm(out) = Norm(Whole)
(* one more question than items, and separators one fewer *)
Counts == phase = "done" =>
  /\ at = seen + 1
  /\ Cat(SelectSeq([j \in 1..Len(out) |-> IF out[j].e = "T" /\ j > 1 /\ out[j-1].e = "N" THEN out[j].t ELSE ""],
                   LAMBDA t : t # ""))
     = Cat([j \in 1..(IF seen > 0 THEN seen - 1 ELSE 0) |-> node.sep])
Ends == <>(phase = "done") \/ [](phase = "script")
Emit == phase = "ask" /\ at = 0 => PrintT(ToJson(node))
=============================================================================
