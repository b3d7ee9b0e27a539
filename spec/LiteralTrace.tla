---------------------------- MODULE LiteralTrace ----------------------------
(***************************************************************************)
(* Validates literals in templates: in every position the literal renders  *)
(* as its value does, and as the same literal held in a variable did.      *)
(***************************************************************************)
EXTENDS Literal, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"

Place(pos, t) ==
  CASE pos = "child" -> "<p>" \o t \o "</p>"
    [] pos = "value" -> "<p a=\"" \o t \o "\"></p>"
    [] pos = "name"  -> "<p " \o t \o "=\"v\"></p>"
    [] pos = "flag"  -> "<p " \o t \o "></p>"
    [] pos = "class" -> t \o " " \o t
    [] pos = "frag"  -> t
    [] pos = "void"  -> "<br a=\"" \o t \o "\" b=\"" \o t \o "\">"
    [] pos = "nested" -> "<div><b>x" \o t \o "</b>" \o t \o "</div>"

Accepts(r) ==
  /\ r.lit # <<>> /\ r.var # <<>>
  /\ \A i \in 1..Len(r.lit) : \A j \in 1..Len(r.var) : r.lit[i] = r.var[j]
  /\ Known(r.tok) => \A i \in 1..Len(r.lit) : r.lit[i] = Place(r.pos, Esc(Value(r.tok)))

Next == ok = "todo" /\ ok' = (IF Accepts(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
