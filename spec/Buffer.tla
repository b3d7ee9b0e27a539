------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* Output buffers as append-only strings over an explicit heap.            *)
(*                                                                         *)
(* A slot holds nothing, a buffer or an ordinary string: its kind k, text  *)
(* t, byte length n, capacity c and the heap block b it owns (0 when its   *)
(* capacity is 0).  The heap maps live blocks to the size they were made   *)
(* with.  Operations are records                                           *)
(*   [op, s (target), d (second slot), t (text), n (bytes appended or a    *)
(*    number of bytes)].                                                   *)
(* Capacities are the implementation's choice within the rules below; the  *)
(* trace specification takes them from the observation, the exhaustive     *)
(* model from Grow, the policy of the code.                                *)
(***************************************************************************)
EXTENDS Text, Integers, FiniteSets, TLC

Nothing == [k |-> "none", t |-> "", n |-> 0, c |-> 0, b |-> 0]

Creates == {"new", "default", "cap", "from_str", "from_string"}
Appends == {"push_str", "push", "write_str", "write_char", "write_fmt", "add", "add_assign",
            "advance", "escape", "value"}
Asks    == {"reserve", "reserve_small"}
Huge    == {"huge", "huge_cap"}          \* requests no allocation can satisfy

(* Slots an operation may be applied to *)
Enabled(o, S) ==
  CASE o.op \in Creates \cup {"huge_cap"} -> S[o.s].k = "none"
    [] o.op \in Appends \cup Asks \cup {"huge", "clear", "into_string", "take", "debug"}
                             -> S[o.s].k = "buf"
    [] o.op = "clone"        -> S[o.s].k = "buf" /\ S[o.d].k = "none" /\ o.s # o.d
    [] o.op \in {"clone_over", "clone_from"}
                             -> S[o.s].k = "buf" /\ S[o.d].k = "buf" /\ o.s # o.d
    [] o.op = "swap"         -> S[o.s].k = "buf" /\ S[o.d].k = "buf" /\ o.s # o.d
    [] o.op = "from_slot"    -> S[o.s].k = "str"
    [] o.op = "drop"         -> S[o.s].k # "none"

(* Kind, text and length after the operation: what an ordinary string does *)
Is(x, k, t, n) == x.k = k /\ x.t = t /\ x.n = n
TextAfter(o, S, Q) ==
  LET s == S[o.s] q == Q[o.s] IN
  /\ CASE o.op \in {"new", "default", "cap"}    -> Is(q, "buf", "", 0)
       [] o.op \in {"from_str", "from_string"}  -> Is(q, "buf", o.t, o.n)
       [] o.op = "escape"                       -> Is(q, "buf", s.t \o Esc(o.t), s.n + o.n)
       [] o.op \in Appends \ {"escape"}         -> Is(q, "buf", s.t \o o.t, s.n + o.n)
       [] o.op \in Asks \cup {"debug"}          -> Is(q, s.k, s.t, s.n)
       [] o.op \in Huge                         -> q = s
       [] o.op = "clear"                        -> Is(q, "buf", "", 0)
       [] o.op = "into_string"                  -> Is(q, "str", s.t, s.n)
       [] o.op = "from_slot"                    -> Is(q, "buf", s.t, s.n)
       [] o.op = "drop"                         -> q = Nothing
       [] o.op = "take"                         -> Is(q, "buf", "", 0)
       [] o.op \in {"clone", "clone_over", "clone_from"} ->
            q = s /\ Is(Q[o.d], "buf", s.t, s.n)
       [] o.op = "swap"                         -> q = S[o.d] /\ Q[o.d] = s
  \* no other slot changes in any way
  /\ \A x \in DOMAIN S \ {o.s} :
       (o.op \in {"clone", "clone_over", "clone_from", "swap"} /\ x = o.d) \/ Q[x] = S[x]

(* Room promised by the operation *)
RoomAfter(o, Q) ==
  LET q == Q[o.s] IN
  CASE o.op \in Asks  -> q.c - q.n >= o.n
    [] o.op = "cap"   -> q.c >= o.n
    [] OTHER          -> TRUE

(* The heap rules, for every state *)
Live(S) == {x \in DOMAIN S : S[x].c > 0}
WithinCapacity(S) == \A x \in DOMAIN S : S[x].n <= S[x].c
Owns(S, H) == \A x \in Live(S) : S[x].b \in DOMAIN H /\ H[S[x].b] = S[x].c
Alone(S)   == \A x, y \in Live(S) : S[x].b = S[y].b => x = y
NoLeak(S, H) == DOMAIN H = {S[x].b : x \in Live(S)}
NoBlock(S) == \A x \in DOMAIN S : S[x].c = 0 => S[x].n = 0

---------------------------------------------------------------------------
(* The policy of the code: where capacities and blocks come from           *)
Max2(a, b) == IF a > b THEN a ELSE b
Grow(cap, size) == Max2(cap * 2, cap + size)

(* how much room each appending operation asks for before it writes        *)
Ask(o) == CASE o.op \in {"push", "write_char"} -> 4
            [] OTHER -> o.n
=============================================================================
