------------------------------- MODULE Copies -------------------------------
(***************************************************************************)
(* The wrappers (raw, displayed, listed, listed with separator) as plain   *)
(* values.  What they hold can be stepped, changed, replaced, taken out    *)
(* and put into another wrapper, cloned and shown at any time before it is *)
(* rendered.                                                               *)
(*                                                                         *)
(* A content is a position n: as a text it is text number n, as an         *)
(* iterator it has the items n .. End-1.  It is kept in the content itself *)
(* ("own") or in a cell that the clones of the content share ("cell").     *)
(*                                                                         *)
(* Meaning: a wrapper is its content, copied with it (After, Said).  The   *)
(* machine keeps contents on a heap, as a program does.  Invariants: what  *)
(* is rendered is what is meant, and no content is lost or kept.  Designs  *)
(* in which clones share their content, start again, render what was there *)
(* when they were made, or are only half assigned are refuted.             *)
(***************************************************************************)
EXTENDS Text, Integers, FiniteSets, TLC, Json
CONSTANTS Handles, Wrappers, Kinds, Ns, Places, Hows,
          End, MaxOps, Design       \* "laby", "shared", "rewind", "early", "half"

VARIABLES h, objs, cells, m, mc, hist, said, meant, live
vars == <<h, objs, cells, m, mc, hist, said, meant, live>>

Texts(n) == CASE n = 0 -> "a<b" [] n = 1 -> "" [] n = 2 -> "\"q\"" [] n = 3 -> "x & y" [] n = 4 -> "'" [] OTHER -> "?"

(* -------------------------------------------------------------- meaning *)
(* s.m: what each handle is, <<>> for none: [w, kind, v, sep]; v is a position, or a cell.  s.c: the cells *)
At(s, x) == IF x.kind = "own" THEN x.v ELSE s.c[x.v]
Put(s, i, n) == IF s.m[i].kind = "own" THEN [s EXCEPT !.m[i].v = n] ELSE [s EXCEPT !.c[s.m[i].v] = n]
Fresh(s, kind, n) == IF kind = "own" THEN [v |-> n, c |-> s.c] ELSE [v |-> Len(s.c) + 1, c |-> Append(s.c, n)]
Listed == {"list", "sep"}
Text(s, x) == LET n == At(s, x) IN
  CASE x.w = "raw" -> Texts(n)
    [] x.w = "disp" -> Esc(Texts(n))
    [] x.w = "list" -> Cat([j \in 1..(End - n) |-> Esc(Texts(n + j - 1))])
    [] x.w = "sep" -> Join([j \in 1..(End - n) |-> Esc(Texts(n + j - 1))], Texts(x.sep))
Framed(p, t) == CASE p = "alone" -> t [] p = "child" -> "<p>" \o t \o "</p>" [] p = "value" -> "<p id=\"" \o t \o "\"></p>"
                  [] p = "some" -> t [] p = "twice" -> "-" \o t \o "-" [] p = "branch" -> t
(* a list over a cell leaves nothing to those who share the cell *)
Used(s, x) == IF x.w \in Listed /\ x.kind = "cell" THEN [s EXCEPT !.c[x.v] = End] ELSE s
After(s, o) ==
  CASE o.op = "make" -> LET f == Fresh(s, o.kind, o.n) IN
         [m |-> [s.m EXCEPT ![o.i] = [w |-> o.w, kind |-> o.kind, v |-> f.v, sep |-> IF o.w = "sep" THEN o.k ELSE 0]], c |-> f.c]
    [] o.op \in {"clone", "assign"} -> [s EXCEPT !.m[o.k] = s.m[o.i]]
    [] o.op = "step" -> IF At(s, s.m[o.i]) < End THEN Put(s, o.i, At(s, s.m[o.i]) + 1) ELSE s
    [] o.op = "set" -> Put(s, o.i, o.n)
    [] o.op = "new" -> LET f == Fresh(s, s.m[o.i].kind, o.n) IN [m |-> [s.m EXCEPT ![o.i].v = f.v], c |-> f.c]
    [] o.op = "other" -> [s EXCEPT !.m[o.i].sep = o.n]
    [] o.op = "wrap" -> [s EXCEPT !.m[o.i] = [@ EXCEPT !.w = o.w, !.sep = IF o.w = "sep" THEN o.n ELSE 0]]
    [] o.op = "move" -> [s EXCEPT !.m[o.k] = s.m[o.i], !.m[o.i] = <<>>]
    [] o.op = "show" -> s
    [] o.op = "copy" -> Used(s, s.m[o.i])            \* a clone is rendered
    [] o.op = "render" -> LET t == Used(s, s.m[o.i]) IN [t EXCEPT !.m[o.i] = <<>>]
    [] o.op = "drop" -> [s EXCEPT !.m[o.i] = <<>>]
Said(s, o) == IF o.op \in {"render", "copy"} THEN Framed(o.w, Text(s, s.m[o.i])) ELSE ""
(* contents there are: separators are contents, too *)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
Held(s) == Sum({<<i, IF s.m[i] = <<>> THEN 0 ELSE IF s.m[i].w = "sep" THEN 2 ELSE 1>> : i \in DOMAIN s.m})

(* --------------------------------------------------------- the machine *)
(* objs: [alive, kind, v, was], h[i]: [w, o, sep, early] *)
New(q, kind, v, n) == Append(q, [alive |-> TRUE, kind |-> kind, v |-> v, was |-> n])
Kill(q, o) == [q EXCEPT ![o].alive = FALSE]
Now(x) == IF x.kind = "own" THEN x.v ELSE cells[x.v]
TextOf(a) == Text([m |-> m, c |-> cells], [w |-> a.w, kind |-> objs[a.o].kind, v |-> objs[a.o].v,
                                           sep |-> IF a.w = "sep" THEN objs[a.sep].v ELSE 0])
Shown(a) == IF Design = "early" THEN a.early ELSE TextOf(a)
Empty(i) == h[i] = <<>>
Same(a, b) == a.w = b.w /\ objs[a.o].kind = objs[b.o].kind
(* a clone: the contents are cloned, a cell is shared *)
CloneOf(a) ==
  LET x == objs[a.o]
      v == IF Design = "rewind" /\ x.kind = "own" THEN x.was ELSE x.v
      q == IF Design = "shared" THEN objs ELSE New(objs, x.kind, v, x.was)
      o == IF Design = "shared" THEN a.o ELSE Len(q)
      q2 == IF a.w = "sep" /\ Design # "shared" THEN New(q, "own", objs[a.sep].v, 0) ELSE q
  IN [q |-> q2, a |-> [a EXCEPT !.o = o, !.sep = IF a.w # "sep" THEN 0 ELSE IF Design = "shared" THEN a.sep ELSE Len(q2)]]
Gone(q, a) == LET p == Kill(q, a.o) IN IF a.w = "sep" THEN Kill(p, a.sep) ELSE p

Mean(o) == LET s == [m |-> m, c |-> mc] IN
           /\ m' = After(s, o).m /\ mc' = After(s, o).c /\ hist' = Append(hist, o) /\ meant' = Said(s, o)
Op(op, i, k, w, kind, n, how) == [op |-> op, i |-> i, k |-> k, w |-> w, kind |-> kind, n |-> n, how |-> how]
Still == UNCHANGED <<cells>> /\ said' = ""

Make(i) == /\ Empty(i)
           /\ \E w \in Wrappers, kind \in Kinds, n \in Ns, k \in Ns, how \in Hows :
                LET v == IF kind = "own" THEN n ELSE Len(cells) + 1
                    q == New(objs, kind, v, n)
                    q2 == IF w = "sep" THEN New(q, "own", k, 0) ELSE q
                    a == [w |-> w, o |-> Len(q), sep |-> IF w = "sep" THEN Len(q2) ELSE 0, early |-> ""] IN
                /\ how \in {"from", "into"} => w # "sep"
                /\ w # "sep" => k = n
                /\ cells' = IF kind = "own" THEN cells ELSE Append(cells, n)
                /\ objs' = q2 /\ said' = "" /\ Mean(Op("make", i, k, w, kind, n, how))
                /\ h' = [h EXCEPT ![i] = [a EXCEPT !.early = Said([m |-> <<[w |-> w, kind |-> "own", v |-> n, sep |-> k]>>, c |-> <<>>],
                                                                  Op("render", 1, 0, "alone", "", 0, ""))]]
Clone(i, k) == /\ i # k /\ ~Empty(i) /\ Empty(k)
               /\ LET c == CloneOf(h[i]) IN objs' = c.q /\ h' = [h EXCEPT ![k] = c.a]
               /\ Still /\ Mean(Op("clone", i, k, "", "", 0, ""))
Assign(i, k) == /\ i # k /\ ~Empty(i) /\ ~Empty(k) /\ Same(h[i], h[k])
                /\ LET c == CloneOf(h[i]) IN
                   IF Design = "half" /\ h[i].w = "sep"
                   THEN objs' = Kill(Kill(c.q, h[k].o), c.a.sep) /\ h' = [h EXCEPT ![k] = [c.a EXCEPT !.sep = h[k].sep]]
                   ELSE objs' = Gone(c.q, h[k]) /\ h' = [h EXCEPT ![k] = c.a]
                /\ Still /\ Mean(Op("assign", i, k, "", "", 0, ""))
Write(i, n, op) == /\ LET x == objs[h[i].o] IN
                      IF x.kind = "own" THEN objs' = [objs EXCEPT ![h[i].o].v = n] /\ UNCHANGED cells
                      ELSE cells' = [cells EXCEPT ![x.v] = n] /\ UNCHANGED objs
                   /\ said' = "" /\ UNCHANGED h /\ Mean(op)
Step(i) == ~Empty(i) /\ LET n == Now(objs[h[i].o]) IN Write(i, IF n < End THEN n + 1 ELSE n, Op("step", i, 0, "", "", 0, ""))
Set(i) == ~Empty(i) /\ \E n \in Ns : Write(i, n, Op("set", i, 0, "", "", n, ""))
Renew(i) == /\ ~Empty(i)
            /\ \E n \in Ns : LET x == objs[h[i].o] IN
                 /\ objs' = New(Kill(objs, h[i].o), x.kind, IF x.kind = "own" THEN n ELSE Len(cells) + 1, n)
                 /\ h' = [h EXCEPT ![i].o = Len(objs) + 1]
                 /\ cells' = IF x.kind = "own" THEN cells ELSE Append(cells, n)
                 /\ said' = "" /\ Mean(Op("new", i, 0, "", "", n, ""))
Other(i) == /\ ~Empty(i) /\ h[i].w = "sep"
            /\ \E n \in Ns : objs' = New(Kill(objs, h[i].sep), "own", n, 0) /\ Mean(Op("other", i, 0, "", "", n, ""))
            /\ h' = [h EXCEPT ![i].sep = Len(objs) + 1] /\ Still
(* taken apart, and put into another wrapper *)
Wrap(i) == /\ ~Empty(i)
           /\ \E w \in Wrappers, n \in Ns, how \in Hows :
                LET q == IF h[i].w = "sep" THEN Kill(objs, h[i].sep) ELSE objs
                    q2 == IF w = "sep" THEN New(q, "own", n, 0) ELSE q IN
                /\ how \in {"from", "into"} => w # "sep"
                /\ objs' = q2 /\ h' = [h EXCEPT ![i].w = w, ![i].sep = IF w = "sep" THEN Len(q2) ELSE 0]
                /\ Mean(Op("wrap", i, 0, w, "", n, how))
           /\ Still
Move(i, k) == /\ i # k /\ ~Empty(i) /\ Empty(k) /\ h' = [h EXCEPT ![k] = h[i], ![i] = <<>>]
              /\ Still /\ UNCHANGED objs /\ Mean(Op("move", i, k, "", "", 0, ""))
Show(i) == ~Empty(i) /\ Still /\ UNCHANGED <<h, objs>> /\ Mean(Op("show", i, 0, "", "", 0, ""))
Spent(a) == IF a.w \in Listed /\ objs[a.o].kind = "cell" THEN [cells EXCEPT ![objs[a.o].v] = End] ELSE cells
Render(i, p) == /\ ~Empty(i) /\ said' = Framed(p, Shown(h[i])) /\ cells' = Spent(h[i])
                /\ objs' = Gone(objs, h[i]) /\ h' = [h EXCEPT ![i] = <<>>] /\ Mean(Op("render", i, 0, p, "", 0, ""))
Copy(i, p) == /\ ~Empty(i)
              /\ LET c == CloneOf(h[i])
                     x == c.q[c.a.o]
                     y == [w |-> c.a.w, kind |-> x.kind, v |-> x.v, sep |-> IF c.a.w = "sep" THEN c.q[c.a.sep].v ELSE 0] IN
                 /\ said' = Framed(p, IF Design = "early" THEN h[i].early ELSE Text([m |-> m, c |-> cells], y))
                 /\ cells' = Spent(h[i]) /\ objs' = IF Design = "shared" THEN objs ELSE Gone(c.q, c.a)
              /\ UNCHANGED h /\ Mean(Op("copy", i, 0, p, "", 0, ""))
Drop(i) == ~Empty(i) /\ objs' = Gone(objs, h[i]) /\ h' = [h EXCEPT ![i] = <<>>] /\ Still /\ Mean(Op("drop", i, 0, "", "", 0, ""))

Init == /\ h = [i \in Handles |-> <<>>] /\ m = h /\ objs = <<>> /\ cells = <<>> /\ mc = <<>>
        /\ hist = <<>> /\ said = "" /\ meant = "" /\ live = 0
Acts(i) == \/ Make(i) \/ Step(i) \/ Set(i) \/ Renew(i) \/ Other(i) \/ Wrap(i) \/ Show(i) \/ Drop(i)
          \/ \E p \in Places : Render(i, p) \/ Copy(i, p)
          \/ \E k \in Handles : Clone(i, k) \/ Assign(i, k) \/ Move(i, k)
Next == /\ Len(hist) < MaxOps /\ \E i \in Handles : Acts(i)
        /\ live' = Cardinality({o \in 1..Len(objs') : objs'[o].alive})
Spec == Init /\ [][Next]_vars

Faithful == said = meant
Kept == live = Held([m |-> m, c |-> mc])
Tells == \E j \in 1..Len(hist) : hist[j].op \in {"render", "copy", "show"}
Emit == Len(hist) = MaxOps /\ Tells => PrintT(ToJson(hist))
=============================================================================
