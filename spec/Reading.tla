------------------------------ MODULE Reading ------------------------------
(***************************************************************************)
(* What a reader of the output sees.  The tokenizer of the HTML standard,  *)
(* as a machine that takes one character at a time, and the tokens a       *)
(* template means.  The output of a template is safe when reading it gives *)
(* exactly the tokens meant: whatever the values contain, none of them     *)
(* opens, closes or changes a tag, an attribute, a comment or a            *)
(* declaration, and each is read back as itself.                           *)
(*                                                                         *)
(* A token is [k, n, a, t]: k = "start" (name n, attributes a, sequences   *)
(* of [n, v]), "end" (n), "text" (t, never two in a row), "doctype",       *)
(* "comment" or "cut" (the output ends inside something).                  *)
(***************************************************************************)
EXTENDS Markup

Tok(k, n, a, t) == [k |-> k, n |-> n, a |-> a, t |-> t]

UpperL == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
            "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
LowerL == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
            "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Range(q) == {q[j] : j \in 1..Len(q)}
Letters == Range(UpperL) \cup Range(LowerL)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LowOf == [c \in Range(UpperL) |-> LowerL[CHOOSE j \in 1..26 : UpperL[j] = c]]
LowC(c) == IF c \in Range(UpperL) THEN LowOf[c] ELSE c
RECURSIVE Low(_)
Low(s) == IF Len(s) <= 1 THEN LowC(s)
          ELSE LET h == Len(s) \div 2 IN Low(SubSeq(s, 1, h)) \o Low(SubSeq(s, h + 1, Len(s)))

(* elements whose content is text only, with and without references in it *)
RcTags == {"title", "textarea"}
RawTags == {"script", "style", "iframe", "noscript"}
Space == {" ", "\n", "\t"}

(* references: those a browser knows even without a semicolon, and &#N;    *)
Named == [amp |-> "&", lt |-> "<", gt |-> ">", quot |-> "\"", copy |-> "(C)", nbsp |-> "(NB)", reg |-> "(R)"]
Numeric == [x \in {"#34", "#38", "#39", "#60", "#62", "#x22", "#x26", "#x27", "#x3c", "#x3e"} |->
  CASE x \in {"#34", "#x22"} -> "\"" [] x \in {"#38", "#x26"} -> "&" [] x \in {"#39", "#x27"} -> "'"
    [] x \in {"#60", "#x3c"} -> "<" [] x \in {"#62", "#x3e"} -> ">"]
RefOf(r) == IF r \in DOMAIN Named THEN Named[r]
            ELSE IF Low(r) \in DOMAIN Numeric THEN Numeric[Low(r)] ELSE "&" \o r
IsRef(r) == r \in DOMAIN Named \/ Low(r) \in DOMAIN Numeric
(* one without a semicolon: the longest name it begins with, outside an attribute *)
Prefixes(r) == {m \in DOMAIN Named : Len(m) <= Len(r) /\ SubSeq(r, 1, Len(m)) = m}
BareOf(r, inAttr) ==
  IF Low(r) \in DOMAIN Numeric THEN RefOf(r)
  ELSE IF Prefixes(r) = {} \/ (inAttr /\ r \notin DOMAIN Named) THEN "&" \o r
  ELSE LET m == CHOOSE x \in Prefixes(r) : \A y \in Prefixes(r) : Len(y) <= Len(x)
       IN  Named[m] \o SubSeq(r, Len(m) + 1, Len(r))

(* ------------------------------------------------------------ the machine *)
(* m mode; raw the text-only element it is in; n name of the tag; a its    *)
(* attributes; an, av the attribute being read; q the quote of its value;  *)
(* t text read since the last token; r a reference being read; out tokens  *)
Fresh == [m |-> "data", raw |-> "", n |-> "", a |-> <<>>, an |-> "", av |-> "", q |-> "",
          t |-> "", r |-> "", out |-> <<>>]

Flush(s) == IF s.t = "" THEN s ELSE [s EXCEPT !.t = "", !.out = Append(@, Tok("text", "", <<>>, s.t))]
Emit0(s, tok) == LET f == Flush(s) IN [f EXCEPT !.out = Append(@, tok)]
(* the attribute read last joins the others, unless its name is already there *)
Keep(s) == IF s.an = "" THEN s
           ELSE [s EXCEPT !.an = "", !.av = "",
                          !.a = IF \E j \in 1..Len(s.a) : s.a[j].n = s.an THEN @
                                ELSE Append(@, [n |-> s.an, v |-> s.av])]
Opened(s) == LET w == Keep(s)
                 z == Emit0(w, Tok("start", w.n, w.a, "")) IN
  [z EXCEPT !.m = "data", !.raw = IF w.n \in RcTags \cup RawTags THEN w.n ELSE "", !.n = "", !.a = <<>>]
(* an end tag in a text-only element is text unless it is its own *)
Closed(s) ==
  IF s.raw # "" /\ s.n # s.raw THEN [s EXCEPT !.m = "data", !.t = @ \o "</" \o s.n \o ">", !.n = ""]
  ELSE LET z == Emit0(s, Tok("end", s.n, <<>>, "")) IN
       [z EXCEPT !.m = "data", !.raw = "", !.n = "", !.a = <<>>, !.an = "", !.av = ""]

RECURSIVE Take(_, _)
Data(s, c) ==
  IF c = "<" THEN [s EXCEPT !.m = "open"]
  ELSE IF c = "&" /\ s.raw \notin RawTags THEN [s EXCEPT !.m = "ref", !.q = "", !.r = ""]
  ELSE [s EXCEPT !.t = @ \o c]
OpenTag(s, c) ==
  IF c = "/" THEN [s EXCEPT !.m = "end"]
  ELSE IF s.raw # "" THEN Take([s EXCEPT !.m = "data", !.t = @ \o "<"], c)
  ELSE IF c \in Letters THEN [s EXCEPT !.m = "tag", !.n = LowC(c)]
  ELSE IF c = "!" THEN [s EXCEPT !.m = "decl", !.r = ""]
  ELSE IF c = "?" THEN [s EXCEPT !.m = "bogus"]
  ELSE Take([s EXCEPT !.m = "data", !.t = @ \o "<"], c)
EndOpen(s, c) ==
  IF c \in Letters THEN [s EXCEPT !.m = "etag", !.n = LowC(c)]
  ELSE IF s.raw # "" THEN Take([s EXCEPT !.m = "data", !.t = @ \o "</"], c)
  ELSE IF c = ">" THEN [s EXCEPT !.m = "data"] ELSE [s EXCEPT !.m = "bogus"]
TagName(s, c) ==
  IF c \in Space THEN [s EXCEPT !.m = "before"]
  ELSE IF c = "/" THEN [s EXCEPT !.m = "slash"]
  ELSE IF c = ">" THEN Opened(s)
  ELSE [s EXCEPT !.n = @ \o LowC(c)]
EndName(s, c) ==
  IF c = ">" THEN Closed(s)
  ELSE IF s.raw # "" /\ c \notin Letters THEN Take([s EXCEPT !.m = "data", !.t = @ \o "</" \o s.n, !.n = ""], c)
  ELSE [s EXCEPT !.n = @ \o LowC(c)]
Before(s, c) ==
  IF c \in Space THEN s
  ELSE IF c = "/" THEN [Keep(s) EXCEPT !.m = "slash"]
  ELSE IF c = ">" THEN Opened(s)
  ELSE [Keep(s) EXCEPT !.m = "name", !.an = LowC(c)]
AttrName(s, c) ==
  IF c \in Space THEN [s EXCEPT !.m = "after"]
  ELSE IF c = "/" THEN [Keep(s) EXCEPT !.m = "slash"]
  ELSE IF c = ">" THEN Opened(s)
  ELSE IF c = "=" THEN [s EXCEPT !.m = "value"]
  ELSE [s EXCEPT !.an = @ \o LowC(c)]
After(s, c) ==
  IF c = "=" THEN [s EXCEPT !.m = "value"] ELSE Before(s, c)
Value(s, c) ==
  IF c \in Space THEN s
  ELSE IF c \in {"\"", "'"} THEN [s EXCEPT !.m = "quoted", !.q = c]
  ELSE IF c = ">" THEN Opened(s)
  ELSE Take([s EXCEPT !.m = "bare", !.q = ""], c)
Quoted(s, c) ==
  IF c = s.q THEN [s EXCEPT !.m = "done"]
  ELSE IF c = "&" THEN [s EXCEPT !.m = "vref", !.r = ""]
  ELSE [s EXCEPT !.av = @ \o c]
Bare(s, c) ==
  IF c \in Space THEN [Keep(s) EXCEPT !.m = "before"]
  ELSE IF c = ">" THEN Opened(s)
  ELSE IF c = "&" THEN [s EXCEPT !.m = "vref", !.r = ""]
  ELSE [s EXCEPT !.av = @ \o c]
Done(s, c) ==
  IF c \in Space THEN [Keep(s) EXCEPT !.m = "before"]
  ELSE IF c = "/" THEN [Keep(s) EXCEPT !.m = "slash"]
  ELSE IF c = ">" THEN Opened(s)
  ELSE Take([Keep(s) EXCEPT !.m = "before"], c)
Slash(s, c) == IF c = ">" THEN Opened(s) ELSE Take([s EXCEPT !.m = "before"], c)
RefChar(c, r) == c \in Letters \cup Digits \/ (c = "#" /\ r = "")
Ref(s, c) ==
  IF c = ";" THEN [s EXCEPT !.m = "data", !.t = @ \o (IF IsRef(s.r) THEN RefOf(s.r) ELSE "&" \o s.r \o ";"), !.r = ""]
  ELSE IF RefChar(c, s.r) THEN [s EXCEPT !.r = @ \o c]
  ELSE Take([s EXCEPT !.m = "data", !.t = @ \o BareOf(s.r, FALSE), !.r = ""], c)
ValueRef(s, c) ==
  LET back == IF s.q = "" THEN "bare" ELSE "quoted" IN
  IF c = ";" THEN [s EXCEPT !.m = back, !.av = @ \o (IF IsRef(s.r) THEN RefOf(s.r) ELSE "&" \o s.r \o ";"), !.r = ""]
  ELSE IF RefChar(c, s.r) THEN [s EXCEPT !.r = @ \o c]
  ELSE Take([s EXCEPT !.m = back, !.av = @ \o (IF c = "=" THEN "&" \o s.r ELSE BareOf(s.r, TRUE)), !.r = ""], c)
Decl(s, c) ==
  IF s.r = "-" /\ c = "-" THEN [s EXCEPT !.m = "comment", !.r = ""]
  ELSE IF c = ">" THEN LET z == Emit0(s, Tok(IF Low(s.r) = "doctype html" THEN "doctype" ELSE "comment", "", <<>>, ""))
                       IN  [z EXCEPT !.m = "data", !.r = ""]
  ELSE [s EXCEPT !.r = @ \o c]
Comment(s, c) ==
  IF c = ">" /\ s.r \in {"", "-", "--"} THEN [Emit0(s, Tok("comment", "", <<>>, "")) EXCEPT !.m = "data", !.r = ""]
  ELSE IF c = "-" THEN [s EXCEPT !.r = IF @ \in {"-", "--"} THEN "--" ELSE "-"]
  ELSE [s EXCEPT !.r = "x"]
Bogus(s, c) == IF c = ">" THEN [Emit0(s, Tok("comment", "", <<>>, "")) EXCEPT !.m = "data"] ELSE s

Take(s, c) ==
  CASE s.m = "data"    -> Data(s, c)
    [] s.m = "open"    -> OpenTag(s, c)
    [] s.m = "end"     -> EndOpen(s, c)
    [] s.m = "tag"     -> TagName(s, c)
    [] s.m = "etag"    -> EndName(s, c)
    [] s.m = "before"  -> Before(s, c)
    [] s.m = "name"    -> AttrName(s, c)
    [] s.m = "after"   -> After(s, c)
    [] s.m = "value"   -> Value(s, c)
    [] s.m = "quoted"  -> Quoted(s, c)
    [] s.m = "bare"    -> Bare(s, c)
    [] s.m = "done"    -> Done(s, c)
    [] s.m = "slash"   -> Slash(s, c)
    [] s.m = "ref"     -> Ref(s, c)
    [] s.m = "vref"    -> ValueRef(s, c)
    [] s.m = "decl"    -> Decl(s, c)
    [] s.m = "comment" -> Comment(s, c)
    [] s.m = "bogus"   -> Bogus(s, c)

RECURSIVE Feed(_, _, _)
Feed(s, text, j) == IF j > Len(text) THEN s ELSE Feed(Take(s, Ch(text, j)), text, j + 1)
Finish0(s) == LET f == IF s.m = "ref" THEN [s EXCEPT !.m = "data", !.t = @ \o BareOf(s.r, FALSE)] ELSE s IN
  IF f.m # "data" \/ f.raw # "" THEN Emit0(f, Tok("cut", "", <<>>, "")).out ELSE Flush(f).out
Read(text) == Finish0(Feed(Fresh, text, 1))

(* ------------------------------------------------------ what is meant     *)
TextTok(t) == IF t = "" THEN <<>> ELSE <<Tok("text", "", <<>>, t)>>

RECURSIVE Joined(_)
Joined(q) ==
  IF Len(q) <= 1 THEN q
  ELSE IF q[1].k = "text" /\ q[2].k = "text"
       THEN Joined(<<Tok("text", "", <<>>, q[1].t \o q[2].t)>> \o SubSeq(q, 3, Len(q)))
       ELSE <<q[1]>> \o Joined(Tail(q))

RECURSIVE Doc(_, _)
(* what a value says, as text *)
Said(n, L) == Cat([j \in 1..Len(Doc(n, L)) |-> Doc(n, L)[j].t])
RECURSIVE Uniq(_, _)
Uniq(q, seen) ==
  IF q = <<>> THEN <<>>
  ELSE IF q[1].n \in seen THEN Uniq(Tail(q), seen) ELSE <<q[1]>> \o Uniq(Tail(q), seen \cup {q[1].n})
(* a name is not decoded, so its special characters are read as written    *)
AttrOf(x, L) ==
  IF x.flag = "no" THEN <<[n |-> Low(Esc(Said(x.name, L))), v |-> Said(x.val, L)]>>
  ELSE IF x.b THEN <<[n |-> Low(Esc(Said(x.name, L))), v |-> ""]>> ELSE <<>>

Doc(n, L) ==
  CASE n.k = "leaf"  -> IF n.raw /\ n.t = "<!DOCTYPE html>" THEN <<Tok("doctype", "", <<>>, "")>> ELSE TextTok(n.t)
    [] n.k = "id"    -> TextTok(n.s)
    [] n.k = "none"  -> <<>>
    [] n.k \in {"wrap", "do"} -> Doc(n.x, L)
    [] n.k = "var"   -> Doc(L[n.v], L)
    [] n.k = "el"    ->
         LET kids == Over(Kids(n.items), LAMBDA x : Doc(x, L))
             said == Cat([j \in 1..Len(kids) |-> kids[j].t]) IN
         <<Tok("start", n.tag, Uniq(Over(Attrs(n.items), LAMBDA x : AttrOf(x, L)), {}), "")>>
         \o (IF n.void THEN <<>>
             ELSE (IF n.tag \in RawTags THEN TextTok(Esc(said)) ELSE IF n.tag \in RcTags THEN TextTok(said) ELSE kids)
                  \o <<Tok("end", n.tag, <<>>, "")>>)
    [] n.k = "frag"  -> Over(n.items, LAMBDA x : Doc(x, L))
    [] n.k = "classes" -> Flat([j \in 1..Len(n.items) |->
                            (IF j > 1 THEN TextTok(" ") ELSE <<>>) \o Doc(n.items[j], L)])
    [] n.k = "if"    -> IF IfTaken(n) = 0 THEN <<>> ELSE Doc(n.arms[IfTaken(n)], L)
    [] n.k = "match" -> Doc(n.arms[MatchTaken(n)].x, L)
    [] n.k = "list"  -> Flat([j \in 1..Len(n.items) |->
                            (IF j > 1 THEN TextTok(n.sep) ELSE <<>>) \o Doc(n.items[j], L)])
    [] n.k = "call"  -> Doc(Body(n), L)
DocAll(a) == Joined(Doc(a.root, a.lets))
=============================================================================
