------------------------------ MODULE Surround ------------------------------
(***************************************************************************)
(* What the names in generated code mean in the surroundings of a template.*)
(* Surroundings: the edition, what the prelude offers, items of the user's *)
(* own in the module (of some kind, hence in some name space, under some   *)
(* or all of the names laby's own code mentions), methods the user's       *)
(* traits give to every type, and whether the user imported laby's names.  *)
(* Generated code mentions things in some style: by a path from the root   *)
(* of a crate, by a path through whatever is called core or laby here, by  *)
(* bare name, as a primitive type, or as a method.                         *)
(*                                                                         *)
(* Invariant: in the style laby is supposed to write, everything means     *)
(* laby's or core's own thing in all surroundings.  In every other style   *)
(* some surroundings make it mean something else or nothing.  Meaning does *)
(* not depend on the kind of function the template stands in, nor does any *)
(* lint level: hosts and lints only multiply the surroundings to be run.   *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC, Json
CONSTANTS Editions, Preludes, Kinds,
          Names,        \* names laby's code mentions, one by one; "*" for all of them at once
          Hosts, Lints, Imports,
          Style,        \* how generated code mentions things
          Out

VARIABLE e
vars == <<e>>
Full == [ed : Editions, pre : Preludes, kind : Kinds, own : Names, meth : BOOLEAN, host : Hosts, lint : Lints, imp : Imports]
Sensible(x) == /\ (x.kind = "none") = (x.own = "none")
               /\ (x.ed = 2015 => x.imp # "names")    \* a macro cannot be imported by path there
Init == e \in {x \in Full : Sensible(x)}
Next == UNCHANGED e

Thing(n, space, std, way) == [n |-> n, space |-> space, std |-> std, way |-> way]
(* what generated code mentions: bare name, name space, whether only std has it, the kind of thing *)
Things == {Thing("Option", "type", FALSE, "item"), Thing("Some", "value", FALSE, "item"), Thing("None", "value", FALSE, "item"),
           Thing("Default", "type", FALSE, "item"), Thing("IntoIterator", "type", FALSE, "item"), Thing("String", "type", TRUE, "item"),
           Thing("Render", "type", FALSE, "laby"), Thing("Buffer", "type", FALSE, "laby"), Thing("frag", "macro", FALSE, "laby"),
           Thing("format_args", "macro", FALSE, "item"), Thing("bool", "type", FALSE, "prim"), Thing("usize", "type", FALSE, "prim"),
           Thing("render", "method", FALSE, "method"), Thing("push_str", "own", FALSE, "method")}
SpaceOf(kind) == CASE kind \in {"struct", "enum", "union", "trait", "type", "mod"} -> "type"
                   [] kind = "fn" -> "value" [] kind = "macro" -> "macro" [] OTHER -> ""
Taken(n, space) == e.own \in {n, "*"} /\ SpaceOf(e.kind) = space
Bare(t) == IF Taken(t.n, t.space) THEN "user"
           ELSE IF t.way = "prim" THEN "core"
           ELSE IF t.way = "laby" THEN (IF e.imp = "path" THEN "nothing" ELSE "laby")
           ELSE IF e.pre = "none" \/ (t.std /\ e.pre = "core") THEN "nothing" ELSE "core"
Through(c) == IF Taken(c, "type") THEN "user" ELSE IF e.ed = 2015 THEN "nothing" ELSE c
Method(t) == IF t.space = "own" THEN "core"              \* an inherent method goes before any trait's
             ELSE IF e.meth THEN "user" ELSE IF e.imp = "path" THEN "nothing" ELSE "laby"
Meaning(t) ==
  CASE t.space = "own" -> Method(t)
    [] Style = "root" -> (IF t.way \in {"item", "prim"} THEN "core" ELSE "laby")
    [] Style = "bare" -> (IF t.way = "method" THEN "laby" ELSE Bare(t))
    [] Style = "through" -> (IF t.way \in {"item", "prim"} THEN Through("core") ELSE Through("laby"))
    [] Style = "prim" -> (IF t.way = "prim" THEN Bare(t) ELSE IF t.way = "item" THEN "core" ELSE "laby")
    [] Style = "method" -> (IF t.way = "method" THEN Method(t) ELSE IF t.way \in {"item", "prim"} THEN "core" ELSE "laby")
Right(t) == Meaning(t) = IF t.space = "own" \/ t.way \in {"item", "prim"} THEN "core" ELSE "laby"
Own == \A t \in Things : Right(t)
Emit == Out => PrintT(ToJson(e))
=============================================================================
