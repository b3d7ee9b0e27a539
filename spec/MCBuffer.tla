------------------------------ MODULE MCBuffer ------------------------------
(***************************************************************************)
(* The code's own transitions over Buffer: capacities follow its growth    *)
(* policy, blocks come from a counter.  Checked against the rules of       *)
(* Buffer, and used to generate the histories replayed on the code.        *)
(***************************************************************************)
EXTENDS Buffer, Json

CONSTANTS Slots, Pieces, Values, Numbers, MaxLen, MaxOps, OpNames, Sim, Trans

VARIABLES slot, heap, next, hist
vars == <<slot, heap, next, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

(* pieces are [t, n] with n the byte length; characters are flagged ch     *)
Ops ==
  UNION {
    {[op |-> a, s |-> s, d |-> s, t |-> "", n |-> 0] :
        a \in OpNames \cap {"new", "default", "clear", "into_string", "from_slot", "drop", "take",
                            "debug"},
        s \in Slots},
    {[op |-> a, s |-> s, d |-> d, t |-> "", n |-> 0] :
        a \in OpNames \cap {"clone", "clone_over", "clone_from", "swap"}, s \in Slots, d \in Slots},
    {[op |-> a, s |-> s, d |-> s, t |-> "", n |-> n] :
        a \in OpNames \cap {"cap", "reserve", "reserve_small"}, s \in Slots, n \in Numbers},
    {[op |-> a, s |-> s, d |-> s, t |-> "", n |-> n] :
        a \in OpNames \cap {"huge", "huge_cap"}, s \in Slots, n \in 0..5},
    {[op |-> a, s |-> s, d |-> s, t |-> p.t, n |-> p.n] :
        a \in OpNames \cap {"from_str", "from_string", "push_str", "write_str", "write_fmt",
                            "add", "add_assign", "advance"},
        s \in Slots, p \in Pieces},
    {[op |-> a, s |-> s, d |-> s, t |-> p.t, n |-> p.n] :
        a \in OpNames \cap {"push", "write_char"}, s \in Slots, p \in {q \in Pieces : q.ch}}}

Init == /\ slot = [s \in Slots |-> Nothing]
        /\ heap = <<>> /\ next = 1 /\ hist = <<>>

(* heap edits *)
Alloc(H, id, size) == id :> size @@ H
Free(H, id) == [x \in DOMAIN H \ {id} |-> H[x]]

Fresh(k, t, n, c) == [k |-> k, t |-> t, n |-> n, c |-> c, b |-> IF c = 0 THEN 0 ELSE next]
Put(s, v, H) == /\ slot' = [slot EXCEPT ![s] = v]
                /\ heap' = (IF v.c = 0 THEN H ELSE Alloc(H, v.b, v.c))
                /\ next' = next + 1
Without(v) == IF v.c = 0 THEN heap ELSE Free(heap, v.b)

Do(o) ==
  LET v == slot[o.s] IN
  CASE o.op \in {"new", "default"} -> Put(o.s, Fresh("buf", "", 0, 0), heap)
    [] o.op = "cap" -> Put(o.s, Fresh("buf", "", 0, o.n), heap)
    [] o.op \in {"from_str", "from_string"} -> Put(o.s, Fresh("buf", o.t, o.n, o.n), heap)
    [] o.op \in Appends \cup Asks ->
         LET size == Ask(o)
             add  == IF o.op \in Asks THEN 0 ELSE o.n
             t2   == IF o.op \in Asks THEN v.t
                     ELSE IF o.op = "escape" THEN v.t \o Esc(o.t) ELSE v.t \o o.t
         IN  IF v.n + size <= v.c
             THEN /\ slot' = [slot EXCEPT ![o.s] = [@ EXCEPT !.t = t2, !.n = v.n + add]]
                  /\ UNCHANGED <<heap, next>>
             ELSE Put(o.s, Fresh("buf", t2, v.n + add, Grow(v.c, size)), Without(v))
    [] o.op \in Huge \cup {"debug"} -> UNCHANGED <<slot, heap, next>>
    [] o.op = "clear" -> /\ slot' = [slot EXCEPT ![o.s] = [@ EXCEPT !.t = "", !.n = 0]]
                         /\ UNCHANGED <<heap, next>>
    [] o.op = "into_string" -> /\ slot' = [slot EXCEPT ![o.s] = [@ EXCEPT !.k = "str"]]
                               /\ UNCHANGED <<heap, next>>
    \* a string gives up its spare room, so its block is remade when it has any
    [] o.op = "from_slot" ->
         IF v.n = v.c
         THEN slot' = [slot EXCEPT ![o.s] = [@ EXCEPT !.k = "buf"]] /\ UNCHANGED <<heap, next>>
         ELSE Put(o.s, Fresh("buf", v.t, v.n, v.n), Without(v))
    [] o.op = "drop" -> /\ slot' = [slot EXCEPT ![o.s] = Nothing]
                        /\ heap' = Without(v) /\ UNCHANGED next
    [] o.op = "take" -> /\ slot' = [slot EXCEPT ![o.s] = [Nothing EXCEPT !.k = "buf"]]
                        /\ heap' = Without(v) /\ UNCHANGED next
    [] o.op \in {"clone", "clone_over", "clone_from"} ->
         Put(o.d, Fresh("buf", v.t, v.n, v.n),
             IF slot[o.d].c = 0 THEN heap ELSE Free(heap, slot[o.d].b))
    [] o.op = "swap" -> /\ slot' = [slot EXCEPT ![o.s] = slot[o.d], ![o.d] = slot[o.s]]
                        /\ UNCHANGED <<heap, next>>

Next == /\ Len(hist) < MaxOps
        /\ \E o \in Pick({x \in Ops : Enabled(x, slot)}) :
             /\ Do(o)
             /\ hist' = Append(hist, o)
             /\ \A s \in Slots : slot'[s].n <= MaxLen

---------------------------------------------------------------------------
(* Refinement of the rules *)
Rules == /\ WithinCapacity(slot) /\ Owns(slot, heap) /\ Alone(slot)
         /\ NoLeak(slot, heap) /\ NoBlock(slot)
StepRules == [][LET o == hist'[Len(hist')] IN
                  /\ Enabled(o, slot) /\ TextAfter(o, slot, slot')
                  /\ RoomAfter(o, slot')]_vars

(* Two states with the same shapes offer the same transitions *)
Shape == [s \in Slots |-> [k |-> slot[s].k, n |-> slot[s].n, c |-> slot[s].c]]
View == IF Trans THEN <<Shape>> ELSE <<Shape, hist>>

(* One history per transition (with Trans) or per complete history *)
EmitStep == (Trans \/ Len(hist') = MaxOps) => PrintT(ToJson(hist'))

AllOps == {"new", "default", "cap", "from_str", "from_string", "push_str", "push", "write_str",
           "write_char", "write_fmt", "add", "add_assign", "advance", "reserve", "reserve_small",
           "huge", "huge_cap", "clear", "clone", "clone_over", "clone_from", "swap", "into_string",
           "from_slot", "drop", "take", "debug"}
PairOps == {"new", "cap", "from_str", "push_str", "push", "reserve", "clear", "clone",
            "clone_over", "clone_from", "swap", "into_string", "from_slot", "drop", "take"}
AllOps2 == AllOps \cup {"escape", "value"}
P(t, n, en, ch) == [t |-> t, n |-> n, en |-> en, ch |-> ch]
P1 == {P("", 0, 0, FALSE), P("a", 1, 1, TRUE), P("\\xc3\\xa9", 2, 2, TRUE),
       P("xyz", 3, 3, FALSE), P("\\xf0\\x9f\\x98\\x80", 4, 4, TRUE),
       P("<\\xe2\\x82\\xac&", 5, 12, FALSE)}
P2 == {P("a", 1, 1, TRUE), P("q\"<7", 4, 12, FALSE)}
P3 == P1 \cup
      {P("0123456789abcdef", 16, 16, FALSE), P("\\\\", 1, 1, TRUE),
       P("\\xe2\\x82\\xac", 3, 3, TRUE), P("\\x00", 1, 1, TRUE), P("'", 1, 5, TRUE),
       P("\"\"\"\"\"\"\"\"\"\"\"\"\"\"\"", 15, 90, FALSE),
       P("0123456789abcdef0123456789abcde&", 32, 36, FALSE),
       P("-----------------------------------------------------------------", 65, 65, FALSE),
       \* the first and last characters of every encoded length
       P("\\x7f", 1, 1, TRUE), P("\\xc2\\x80", 2, 2, TRUE), P("\\xc3\\xbf", 2, 2, TRUE),
       P("\\xdf\\xbf", 2, 2, TRUE), P("\\xe0\\xa0\\x80", 3, 3, TRUE),
       P("\\xed\\x9f\\xbf", 3, 3, TRUE), P("\\xee\\x80\\x80", 3, 3, TRUE),
       P("\\xef\\xbf\\xbf", 3, 3, TRUE), P("\\xf0\\x90\\x80\\x80", 4, 4, TRUE),
       P("\\xf4\\x8f\\xbf\\xbf", 4, 4, TRUE)}

(* Values whose rendering writes through the raw pointer *)
V(t, n) == [t |-> t, n |-> n]
AllValues ==
  << V("0", 1), V("255", 3), V("-128", 4), V("65535", 5), V("-32768", 6),
     V("4294967295", 10), V("-2147483648", 11), V("18446744073709551615", 20),
     V("-9223372036854775808", 20), V("340282366920938463463374607431768211455", 39),
     V("-170141183460469231731687303715884105728", 40),
     V("-1.7976931348623157e308", 23), V("-2.2250738585072014e-308", 24), V("0.0", 3),
     V("-3.4028235e38", 13), V("-1.1754944e-38", 14), V("NaN", 3), V("-inf", 4),
     V("true", 4), V("false", 5), V("&lt;", 4), V("\\xf0\\x9f\\x98\\x80", 4), V("", 0),
     V("7", 1), V("-100000", 7), V("1e-7", 4), V("\\xe2\\x82\\xac&quot;", 9) >>
NoValues == <<>>
=============================================================================
