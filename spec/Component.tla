----------------------------- MODULE Component -----------------------------
(***************************************************************************)
(* Calling a component by name, as the implementation goes through it:     *)
(*   sig    a signature is written (every one within the bounds)           *)
(*   call   a call is written (every one within the bounds)                *)
(*   bind   the arguments are taken one by one: a name finds its           *)
(*          parameter, what has no name goes to the rest parameter         *)
(*   pass   the parameters are filled one by one: bound argument, default, *)
(*          or all the rest                                                *)
(* Invariants: the machine accepts exactly the well-formed calls, passes   *)
(* what Markup says each parameter is bound to, uses every argument that   *)
(* is not superseded exactly once, and does not care in which order        *)
(* arguments of different names are given.                                 *)
(***************************************************************************)
EXTENDS Markup, FiniteSets, TLC, Json
CONSTANTS MaxParams, MaxArgs,
          Kinds,       \* kinds of parameter: req, dfl, dfx, rest
          Faults       \* kinds of faulty argument that may be written

VARIABLES sig, args, phase, at, bound, rest, passed, res
vars == <<sig, args, phase, at, bound, rest, passed, res>>

Name(j) == "p" \o ToString(j)
Value(i) == [k |-> "leaf", id |-> i, r |-> TRUE, raw |-> FALSE, t |-> "v" \o ToString(i)]
Param(j, kind) == [n |-> Name(j), kind |-> kind, rest |-> kind = "rest",
                   def |-> IF kind \in {"dfl", "dfx"} THEN Value(100 + j) ELSE [k |-> "none"]]
Arg(n, fault, i) == [n |-> n, fault |-> fault, x |-> Value(i)]

Init == /\ sig = <<>> /\ args = <<>> /\ phase = "sig" /\ at = 0 /\ bound = <<>> /\ rest = <<>>
        /\ passed = <<>> /\ res = ""

AddParam == /\ phase = "sig" /\ Len(sig) < MaxParams
            /\ \E kd \in Kinds : sig' = Append(sig, Param(Len(sig) + 1, kd))
            /\ UNCHANGED <<args, phase, at, bound, rest, passed, res>>
Signed == phase = "sig" /\ phase' = "call" /\ UNCHANGED <<sig, args, at, bound, rest, passed, res>>

AddArg == /\ phase = "call" /\ Len(args) < MaxArgs
          /\ \/ \E j \in 1..Len(sig) : args' = Append(args, Arg(sig[j].n, "", Len(args) + 1))
             \/ args' = Append(args, Arg("", "", Len(args) + 1))
             \/ \E f \in Faults : args' = Append(args, Arg("?" \o f, f, Len(args) + 1))
          /\ UNCHANGED <<sig, phase, at, bound, rest, passed, res>>
Called == /\ phase = "call" /\ phase' = "bind" /\ at' = 1
          /\ bound' = [j \in 1..Len(sig) |-> 0]
          /\ UNCHANGED <<sig, args, rest, passed, res>>

(* ------------------------------------------------------------ expanding *)
RestAt == {j \in 1..Len(sig) : sig[j].rest}
NamedAt(n) == {j \in 1..Len(sig) : sig[j].n = n /\ ~sig[j].rest}
Reject(why) == phase' = "done" /\ res' = why

Bind == /\ phase = "bind" /\ at <= Len(args) /\ Cardinality(RestAt) <= 1
        /\ LET a == args[at] IN
           IF a.n = "" THEN
             IF RestAt = {} THEN Reject("unnamed") /\ UNCHANGED <<at, bound, rest>>
             ELSE rest' = Append(rest, at) /\ at' = at + 1 /\ UNCHANGED <<phase, res, bound>>
           ELSE IF a.fault # "" \/ NamedAt(a.n) = {} THEN Reject("name") /\ UNCHANGED <<at, bound, rest>>
           ELSE /\ bound' = [bound EXCEPT ![CHOOSE j \in NamedAt(a.n) : TRUE] = at]
                /\ at' = at + 1 /\ UNCHANGED <<phase, res, rest>>
        /\ UNCHANGED <<sig, args, passed>>
TwoRests == /\ phase = "bind" /\ Cardinality(RestAt) > 1 /\ Reject("rests")
            /\ UNCHANGED <<sig, args, at, bound, rest, passed>>
Bound1 == /\ phase = "bind" /\ at > Len(args) /\ Cardinality(RestAt) <= 1 /\ phase' = "pass" /\ at' = 1
          /\ UNCHANGED <<sig, args, bound, rest, passed, res>>

Pass == /\ phase = "pass" /\ at <= Len(sig)
        /\ LET p == sig[at]
               give(x) == passed' = Append(passed, x) /\ at' = at + 1 /\ UNCHANGED <<phase, res>>
           IN IF p.rest THEN give([k |-> "frag", items |-> [j \in 1..Len(rest) |-> args[rest[j]].x]])
              ELSE IF bound[at] > 0 THEN give(args[bound[at]].x)
              ELSE IF p.kind = "req" THEN Reject("missing") /\ UNCHANGED <<at, passed>>
              ELSE give(p.def)
        /\ UNCHANGED <<sig, args, bound, rest>>
Passed1 == phase = "pass" /\ at > Len(sig) /\ Reject("ok") /\ UNCHANGED <<sig, args, at, bound, rest, passed>>

Next == AddParam \/ Signed \/ AddArg \/ Called \/ Bind \/ TwoRests \/ Bound1 \/ Pass \/ Passed1
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- meaning *)
Node == [k |-> "call", sig |-> sig, args |-> args, body |-> [k |-> "frag", items |-> <<>>]]
WellFormed ==
  /\ Cardinality(RestAt) <= 1
  /\ \A j \in 1..Len(args) : IF args[j].n = "" THEN RestAt # {} ELSE args[j].fault = "" /\ NamedAt(args[j].n) # {}
  /\ \A j \in 1..Len(sig) : sig[j].kind = "req" => \E i \in 1..Len(args) : args[i].n = sig[j].n

Decides == phase = "done" => (res = "ok" <=> WellFormed)
Binds == phase = "done" /\ res = "ok" => passed = [j \in 1..Len(sig) |-> Bound(Node, sig[j])]

RECURSIVE Ids(_)
Ids(x) == IF x.k = "leaf" THEN <<x.id>> ELSE Over(x.items, Ids)
Uses == phase = "done" /\ res = "ok" =>
  LET used == Over(passed, Ids)
      stands(i) == args[i].n = "" \/ \A h \in (i + 1)..Len(args) : args[h].n # args[i].n
  IN  /\ \A i \in 1..Len(args) : Cardinality({j \in 1..Len(used) : used[j] = i}) = (IF stands(i) THEN 1 ELSE 0)
      /\ \A j \in 1..Len(sig) : Cardinality({h \in 1..Len(used) : used[h] = 100 + j})
           = (IF sig[j].kind \in {"dfl", "dfx"} /\ \A i \in 1..Len(args) : args[i].n # sig[j].n THEN 1 ELSE 0)

Swap(q, i) == [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
OrderFree == phase = "done" /\ res = "ok" =>
  \A i \in 1..(Len(args) - 1) : args[i].n # args[i + 1].n =>
    \A j \in 1..Len(sig) : Bound([Node EXCEPT !.args = Swap(args, i)], sig[j]) = Bound(Node, sig[j])

Emit == phase = "done" => PrintT(ToJson([
  sig |-> [j \in 1..Len(sig) |-> sig[j].kind],
  args |-> [j \in 1..Len(args) |-> IF args[j].n = "" THEN "" ELSE args[j].n], res |-> res]))
=============================================================================
