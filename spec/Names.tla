------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* What a name written by the user means inside a macro call.  A use of a  *)
(* name sits inside a stack of positions (child of an element, branch of a *)
(* conditional fragment, argument of a component ...).  Expanding a        *)
(* position puts generated scopes around what the user wrote; a scope may  *)
(* bind names of its own.  A generated binding is seen by the user's code  *)
(* only if it is not hygienic (made by a procedural macro rather than by   *)
(* macro_rules) and nothing the user wrote lies outside it.  A generated   *)
(* item (struct, impl, fn) is opaque: the user's locals and type           *)
(* parameters are not visible in it, so no user code may be placed there.  *)
(*                                                                         *)
(* Invariants: along every stack of positions every name that does not     *)
(* begin with an underscore means what the user bound it to.               *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC, Json
CONSTANTS UserNames, Kinds, Positions, MaxDepth,
          Careless   \* TRUE: a generator that binds plain names, to see the invariant fail

VARIABLES a, b, stack, phase, env
vars == <<a, b, stack, phase, env>>

(* name spaces *)
Space(kind) == IF kind \in {"tparam", "type"} THEN "type" ELSE "value"

(* a scope: names bound per space, visible to the user's code or not, and  *)
(* whether it is opaque                                                    *)
Scope(value, type, seen, opaque) == [value |-> value, type |-> type, seen |-> seen, opaque |-> opaque]
Plain == Scope({}, {}, FALSE, FALSE)

Variants == {"__variant_1", "__variant_2", "__variant_3"}
(* the scopes a position generates between the macro call and what the     *)
(* user wrote in it, outermost first                                       *)
Scopes(p) ==
  CASE p \in {"child", "children", "val", "void", "name", "flag", "frag", "classes"} ->
         \* { struct _tag..; impl Render for _tag..; _tag { t1: <user>, .. } }
         <<Scope(IF Careless THEN {"t1"} ELSE {}, {"_tag"}, TRUE, FALSE)>>
    [] p \in {"ifcond", "ifbody", "scrut", "armbody", "guard"} ->
         \* { let mut __variant_1 = None; ..; if <user> { __variant_1 = Some(<user>) } ..; frag!(..) }
         <<Scope(IF Careless THEN {"value"} ELSE Variants, {}, TRUE, FALSE)>>
    [] p = "render1" -> <<Scope({"buf"}, {}, Careless, FALSE)>>
    [] p = "render2" -> <<Scope({"_tag"}, {"_tag"}, TRUE, FALSE)>>
    [] p = "rest" -> <<Scope({}, {"_tag"}, TRUE, FALSE)>>
    [] OTHER -> <<>>

Uses == [n : UserNames, kind : Kinds]
Init == /\ a \in Uses /\ b = a /\ stack = <<>> /\ phase = "other" /\ env = <<>>
Other == /\ phase = "other" /\ phase' = "kind"
         /\ \E n \in UserNames \ {a.n} : b' = [b EXCEPT !.n = n]
         /\ UNCHANGED <<a, stack, env>>
Kind == /\ phase = "kind" /\ phase' = "nest"
        /\ \E kd \in Kinds : b' = [b EXCEPT !.kind = kd]
        /\ UNCHANGED <<a, stack, env>>
Nest == /\ phase = "nest" /\ Len(stack) < MaxDepth
        /\ \E p \in Positions : stack' = Append(stack, p) /\ env' = env \o Scopes(p)
        /\ UNCHANGED <<a, b, phase>>
Next == Other \/ Kind \/ Nest
Spec == Init /\ [][Next]_vars

(* what a use means: "user", or the scope that takes it *)
Captures(s, u) == s.opaque \/ (s.seen /\ u.n \in (IF Space(u.kind) = "type" THEN s.type ELSE s.value))
Meaning(u) == LET hit == {j \in 1..Len(env) : Captures(env[j], u)}
              IN  IF hit = {} THEN "user" ELSE "generated"
Clean == Meaning(a) = "user" /\ Meaning(b) = "user"
Emit == phase = "nest" /\ stack # <<>> => PrintT(ToJson([a |-> a, b |-> b, stack |-> stack]))
=============================================================================
