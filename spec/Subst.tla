------------------------------- MODULE Subst -------------------------------
(***************************************************************************)
(* Expressions handed through the user's macro_rules macros into templates.*)
(* An expression is built bottom-up from typed operands; any of its parts  *)
(* may be a fragment ("sub") substituted for a macro's $e:expr, which Rust *)
(* keeps together whatever operators stand around it.  The source written  *)
(* has parentheses where precedence asks for them, but none around a       *)
(* substituted part: there only an invisible group keeps it together.      *)
(*                                                                         *)
(* Meaning: the value of the tree.  Read: the value of the token sequence  *)
(* when it is parsed again by precedence, with the invisible groups        *)
(* respected (Groups = "kept") or ignored ("ignored"), as a compiler does  *)
(* with what a procedural macro hands back.                                *)
(*                                                                         *)
(* Invariant: the tokens mean what the tree means.  Holds when groups are  *)
(* kept; some expressions mean something else, or nothing, when they are   *)
(* ignored, so laby has to make the grouping visible.                      *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC, Json
CONSTANTS MaxNodes, Groups, Ops, Out

VARIABLES st, n, phase      \* a stack of typed trees, nodes used
vars == <<st, n, phase>>

Err == [ty |-> "err", v |-> 0]
I(v) == [ty |-> "int", v |-> v]
B(b) == [ty |-> "bool", v |-> IF b THEN 1 ELSE 0]
Leaf(ty, v) == [k |-> "leaf", o |-> "", ty |-> ty, v |-> v, sub |-> FALSE, xs |-> <<>>]
Node(k, o, ty, xs) == [k |-> k, o |-> o, ty |-> ty, v |-> 0, sub |-> FALSE, xs |-> xs]

(* binding strength; a part binding less than its place asks for needs parentheses *)
Strength(o) == CASE o \in {"||"} -> 2 [] o = "&&" -> 3 [] o \in {"==", "<"} -> 4 [] o \in {"+", "-"} -> 6
                 [] o = "*" -> 7 [] o = "as" -> 8 [] o = ".." -> 1 [] OTHER -> 0
StrengthOf(t) == CASE t.k = "bin" -> Strength(t.o) [] t.k = "cast" -> 8 [] t.k = "un" -> 9 [] t.k = "post" -> 10
                   [] t.k = "leaf" /\ t.ty = "fn" -> 0 [] t.k = "leaf" /\ t.ty = "int" /\ t.v < 0 -> 9 [] OTHER -> 11

(* what operators do *)
Bin(o, a, b) ==
  CASE a.ty = "int" /\ b.ty = "int" /\ o = "+" -> I(a.v + b.v)
    [] a.ty = "int" /\ b.ty = "int" /\ o = "-" -> I(a.v - b.v)
    [] a.ty = "int" /\ b.ty = "int" /\ o = "*" -> I(a.v * b.v)
    [] a.ty = "int" /\ b.ty = "int" /\ o = "==" -> B(a.v = b.v)
    [] a.ty = "int" /\ b.ty = "int" /\ o = "<" -> B(a.v < b.v)
    [] a.ty = "bool" /\ b.ty = "bool" /\ o = "==" -> B(a.v = b.v)
    [] a.ty = "bool" /\ b.ty = "bool" /\ o = "&&" -> B(a.v = 1 /\ b.v = 1)
    [] a.ty = "bool" /\ b.ty = "bool" /\ o = "||" -> B(a.v = 1 \/ b.v = 1)
    [] a.ty = "int" /\ b.ty = "int" /\ o = ".." -> [ty |-> "range", v |-> b.v - a.v]
    [] OTHER -> Err
Un(o, a) == CASE o = "-" /\ a.ty = "int" -> I(-a.v) [] o = "!" /\ a.ty = "bool" -> B(a.v = 0)
              [] o = "&" /\ a.ty = "int" -> [ty |-> "ref", v |-> a.v] [] OTHER -> Err
Post(o, a) == CASE o = ".up()" /\ a.ty = "int" -> I(a.v + 10) [] o = ".no()" /\ a.ty = "bool" -> B(a.v = 0)
                [] o = ".span()" /\ a.ty = "range" -> I(a.v) [] o = "(2)" /\ a.ty = "fn" -> I(a.v + 2)
                [] o = ".n" /\ a.ty = "rec" -> I(a.v) [] o = ".of()" /\ a.ty = "ref" -> I(a.v + 100) [] OTHER -> Err
RECURSIVE Val(_)
Val(t) == CASE t.k = "leaf" -> [ty |-> t.ty, v |-> t.v]
            [] t.k = "bin" -> Bin(t.o, Val(t.xs[1]), Val(t.xs[2]))
            [] t.k = "un" -> Un(t.o, Val(t.xs[1]))
            [] t.k = "cast" -> (IF Val(t.xs[1]).ty = "int" THEN Val(t.xs[1]) ELSE Err)
            [] t.k = "post" -> Post(t.o, Val(t.xs[1]))
            [] t.k = "if" -> (IF Val(t.xs[1]).ty # "bool" THEN Err ELSE IF Val(t.xs[1]).v = 1 THEN Val(t.xs[2]) ELSE Val(t.xs[3]))

(* ------------------------------------------------------------ building *)
Init == st = <<>> /\ n = 0 /\ phase = "build"
Top == st[Len(st)]
Below == SubSeq(st, 1, Len(st) - 1)
Push(t) == st' = Append(st, t)
PutLeaf == /\ phase = "build" /\ n + Len(st) < MaxNodes
           /\ \E l \in {Leaf("int", v) : v \in {1, 2, 3}} \cup {Leaf("bool", v) : v \in {0, 1}} \cup {Leaf("fn", 1), Leaf("rec", 5)} : Push(l)
           /\ n' = n + 1 /\ UNCHANGED phase
PutBin == /\ phase = "build" /\ Len(st) > 1
          /\ \E o \in Ops \cap {"+", "-", "*", "==", "<", "&&", "||", ".."} :
               LET a == st[Len(st) - 1]
                   b == Top
                   r == Bin(o, [ty |-> a.ty, v |-> 1], [ty |-> b.ty, v |-> 1])    \* only the types matter
                   r2 == IF a.ty = "bool" THEN Bin(o, B(TRUE), B(TRUE)) ELSE r
               IN /\ a.ty = b.ty /\ a.ty \in {"int", "bool"} /\ r2.ty # "err"
                  /\ ~(o \in {"==", "<"} /\ \E x \in {a, b} : x.k = "bin" /\ x.o \in {"==", "<"} /\ ~x.sub)   \* no chains
                  /\ st' = Append(SubSeq(st, 1, Len(st) - 2), Node("bin", o, r2.ty, <<a, b>>))
          /\ n' = n + 1 /\ UNCHANGED phase
PutUn == /\ phase = "build" /\ st # <<>> /\ n + Len(st) <= MaxNodes
         /\ \E o \in Ops \cap {"-", "!", "&"} :
              /\ Top.ty = (IF o = "!" THEN "bool" ELSE "int")
              /\ ~(o = "-" /\ Top.k = "un" /\ ~Top.sub)
              /\ st' = Append(Below, Node("un", o, IF o = "!" THEN "bool" ELSE IF o = "-" THEN "int" ELSE "ref", <<Top>>))
         /\ n' = n + 1 /\ UNCHANGED phase
PostTy(o) == CASE o = ".up()" -> <<"int", "int">> [] o = ".no()" -> <<"bool", "bool">> [] o = ".span()" -> <<"range", "int">>
               [] o = "(2)" -> <<"fn", "int">> [] o = ".n" -> <<"rec", "int">> [] o = ".of()" -> <<"ref", "int">>
PutPost == /\ phase = "build" /\ st # <<>> /\ n + Len(st) <= MaxNodes
           /\ \E o \in Ops \cap {".up()", ".no()", ".span()", "(2)", ".n", ".of()"} :
                /\ Top.ty = PostTy(o)[1]
                /\ st' = Append(Below, Node("post", o, PostTy(o)[2], <<Top>>))
           /\ n' = n + 1 /\ UNCHANGED phase
PutCast == /\ phase = "build" /\ st # <<>> /\ "as" \in Ops /\ Top.ty = "int" /\ n + Len(st) <= MaxNodes
           /\ st' = Append(Below, Node("cast", "as", "int", <<Top>>)) /\ n' = n + 1 /\ UNCHANGED phase
PutIf == /\ phase = "build" /\ "if" \in Ops /\ Len(st) > 2
         /\ LET c == st[Len(st) - 2]
                a == st[Len(st) - 1]
            IN /\ c.ty = "bool" /\ a.ty = "int" /\ Top.ty = "int"
               /\ st' = Append(SubSeq(st, 1, Len(st) - 3), Node("if", "if", "int", <<c, a, Top>>))
         /\ n' = n + 1 /\ UNCHANGED phase
(* the part made last becomes a substituted fragment *)
Mark == /\ phase = "build" /\ st # <<>> /\ ~Top.sub
        /\ st' = Append(Below, [Top EXCEPT !.sub = TRUE]) /\ UNCHANGED <<n, phase>>
Whole == Len(st) = 1 /\ Top.ty \in {"int", "bool"}
RECURSIVE Subs(_)
Subs(t) == (IF t.sub THEN 1 ELSE 0) + (LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE Subs(t.xs[j]) + S(j - 1) IN S(Len(t.xs)))
Finish == phase = "build" /\ Whole /\ n > 1 /\ Subs(Top) > 0 /\ phase' = "done" /\ UNCHANGED <<st, n>>
Step == PutLeaf \/ PutBin \/ PutUn \/ PutPost \/ PutCast \/ PutIf \/ Mark \/ Finish
Next == Step

(* ------------------------------------------------------------- tokens *)
T(t, v) == [t |-> t, v |-> v]
RECURSIVE Toks(_)
Part(t, need) ==        \* a part where a binding strength is asked for
  IF t.sub THEN <<T("<<", "")>> \o Toks(t) \o <<T(">>", "")>>
  ELSE IF StrengthOf(t) < need THEN <<T("(", "")>> \o Toks(t) \o <<T(")", "")>>
  ELSE Toks(t)
RECURSIVE Casts(_)
Casts(t) == ~t.sub /\ (t.k = "cast" \/ (t.k = "bin" /\ Casts(t.xs[2])))     \* ends with a cast
Toks(t) ==
  CASE t.k = "leaf" -> <<T("leaf", t)>>
    [] t.k = "bin" -> LET s == Strength(t.o) IN Part(t.xs[1], IF t.o = "<" /\ Casts(t.xs[1]) THEN 9 ELSE IF t.o \in {"..", "==", "<"} THEN s + 1 ELSE s) \o <<T("bin", t.o)>> \o Part(t.xs[2], s + 1)
    [] t.k = "un" -> <<T("un", t.o)>> \o Part(t.xs[1], 9)
    [] t.k = "cast" -> Part(t.xs[1], 8) \o <<T("cast", "as")>>
    [] t.k = "post" -> Part(t.xs[1], IF t.xs[1].k = "leaf" /\ t.xs[1].ty = "rec" THEN 11 ELSE 10) \o <<T("post", t.o)>>
    [] t.k = "if" -> <<T("if", "")>> \o Part(t.xs[1], 0) \o <<T("{", "")>> \o Part(t.xs[2], 0) \o <<T("}", ""), T("{", "")>> \o Part(t.xs[3], 0) \o <<T("}", "")>>
Seen(ts) == IF Groups = "ignored" THEN SelectSeq(ts, LAMBDA x : x.t \notin {"<<", ">>"})
            ELSE [j \in DOMAIN ts |-> IF ts[j].t = "<<" THEN T("(", "") ELSE IF ts[j].t = ">>" THEN T(")", "") ELSE ts[j]]

(* ------------------------------------- reading tokens back by precedence *)
NoTok == T("end", "")
Hd(ts) == IF ts = <<>> THEN NoTok ELSE Head(ts)
R(t, rest) == [tree |-> t, rest |-> rest]
Bad == Leaf("err", 0)
RECURSIVE Expr(_, _), Prim(_), Posts(_, _), Ops2(_, _, _)
Prim(ts) ==
  LET h == Hd(ts) IN
  CASE h.t = "leaf" /\ h.v.ty = "fn" ->         \* a closure's body goes on as far as it can: |x| x + 1 ...
         LET b == Expr(<<T("leaf", Leaf("int", h.v.v))>> \o Tail(ts), 0)
             moved == Len(b.rest) # Len(ts) - 1
         IN R(IF moved THEN Bad ELSE h.v, b.rest)
    [] h.t = "leaf" -> Posts(h.v, Tail(ts))
    [] h.t = "(" -> LET e == Expr(Tail(ts), 0) IN (IF Hd(e.rest).t = ")" THEN Posts(e.tree, Tail(e.rest)) ELSE R(Bad, <<>>))
    [] h.t = "un" -> LET e == Prim(Tail(ts)) IN R(Node("un", h.v, "", <<e.tree>>), e.rest)
    [] h.t = "if" ->
         LET c == Expr(Tail(ts), 0) IN
         IF Hd(c.rest).t # "{" THEN R(Bad, <<>>)
         ELSE LET a == Expr(Tail(c.rest), 0) IN
              IF Hd(a.rest).t # "}" \/ Len(a.rest) < 2 THEN R(Bad, <<>>)
              ELSE LET b == Expr(Tail(Tail(a.rest)), 0) IN
                   IF Hd(b.rest).t # "}" THEN R(Bad, <<>>) ELSE Posts(Node("if", "if", "", <<c.tree, a.tree, b.tree>>), Tail(b.rest))
    [] OTHER -> R(Bad, <<>>)
Posts(t, ts) == IF Hd(ts).t = "post" THEN Posts(Node("post", Hd(ts).v, "", <<t>>), Tail(ts)) ELSE R(t, ts)
Ops2(l, ts, min) ==
  LET h == Hd(ts) IN
  IF h.t = "cast" /\ 8 >= min /\ Hd(Tail(ts)) = T("bin", "<") THEN R(Bad, <<>>)     \* as T < begins arguments of T
  ELSE IF h.t = "cast" /\ 8 >= min THEN Ops2(Node("cast", "as", "", <<l>>), Tail(ts), min)
  ELSE IF h.t = "bin" /\ Strength(h.v) >= min
       THEN LET r == Expr(Tail(ts), Strength(h.v) + 1) IN Ops2(Node("bin", h.v, "", <<l, r.tree>>), r.rest, min)
       ELSE R(l, ts)
Expr(ts, min) == LET p == Prim(ts) IN Ops2(p.tree, p.rest, min)
(* At the start of a statement an if is a statement of its own, substituted or not: an operator
   after it would begin another.  A written whole needs parentheses there; a substituted whole has them. *)
RECURSIVE Leads(_)
Leads(t) == IF t.k \in {"bin", "cast"} THEN t.xs[1].k = "if" \/ (~t.xs[1].sub /\ Leads(t.xs[1]))
            ELSE t.k = "post" /\ ~t.xs[1].sub /\ Leads(t.xs[1])
Whole0(e) == IF e.rest = <<>> THEN Val(e.tree) ELSE Err
Start(ts) == IF Hd(ts).t # "if" THEN Whole0(Expr(ts, 0))
             ELSE LET p == Prim(ts) IN Whole0(p)
Stmt(t) == IF ~t.sub /\ Leads(t) THEN <<T("(", "")>> \o Toks(t) \o <<T(")", "")>> ELSE Part(t, 0)
Ignored(ts) == SelectSeq(ts, LAMBDA x : x.t \notin {"<<", ">>"})
Read(t) == Whole0(Expr(Seen(Part(t, 0)), 0))
ReadStmt(t) == Start(Seen(Stmt(t)))

Kept == phase = "done" => Read(Top) = Val(Top) /\ ReadStmt(Top) = Val(Top)
Wellformed == phase = "done" => Val(Top).ty = Top.ty
Emit == Out /\ phase = "done" =>
          PrintT(ToJson([tree |-> Top, val |-> Val(Top).v, ty |-> Top.ty, lead |-> Leads(Top),
                         flat |-> Whole0(Expr(Ignored(Part(Top, 0)), 0)) = Val(Top), fstmt |-> Start(Ignored(Stmt(Top))) = Val(Top)]))
=============================================================================
