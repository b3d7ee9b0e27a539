----------------------------- MODULE MCLiteral -----------------------------
(* Types every literal within the bounds, character by character. *)
EXTENDS Literal, Json, TLC
CONSTANTS MaxStr, MaxDigits, Suffixes, FloatDigits, Exps

VARIABLES tok, done
IntSuffixes == {"", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"}
Empty(kind) ==
  CASE kind \in {"str"} -> {[kind |-> "str", items |-> <<>>]}
    [] kind = "rstr" -> {[kind |-> "rstr", hashes |-> h, items |-> <<>>] : h \in 0..2}
    [] kind = "char" -> {[kind |-> "char", item |-> i] : i \in CharsIn("c")}
    [] kind = "byte" -> {[kind |-> "byte", item |-> i] : i \in CharsIn("b")}
    [] kind = "bool" -> {[kind |-> "bool", b |-> b] : b \in BOOLEAN}
    [] kind = "int"  -> {[kind |-> "int", radix |-> r, digits |-> <<>>, suffix |-> s]
                           : r \in {2, 8, 10, 16}, s \in Suffixes}
    [] kind = "float" -> {[kind |-> "float", ip |-> <<>>, fp |-> <<>>, dot |-> d, ex |-> x[2], e |-> x[1],
                           suffix |-> s]
                           : d \in BOOLEAN, x \in Exps, s \in {"", "f32", "f64", "_f64", "_f32"}}

Init == /\ \E kd \in {"str", "rstr", "char", "byte", "bool", "int", "float"} : tok \in Empty(kd)
        /\ done = FALSE

RadixDigits(r) == CASE r = 2 -> {"0", "1", "_"} [] r = 8 -> {"0", "1", "7", "_"}
                    [] r = 10 -> {"0", "1", "9", "_"} [] OTHER -> {"0", "1", "9", "a", "E", "f", "_"}

Blank(i) == Chars[i].w \in {" ", "\\x0a", "\\x09"}

Type ==
  \/ /\ tok.kind = "str" /\ Len(tok.items) < MaxStr
     /\ \E i \in CharsIn("s") \cup CharsIn("z") :
          (* a continued line swallows the blanks that follow *)
          /\ ~(Blank(i) /\ tok.items # <<>> /\ tok.items[Len(tok.items)] \in CharsIn("z"))
          /\ tok' = [tok EXCEPT !.items = Append(@, i)]
  \/ /\ tok.kind = "rstr" /\ Len(tok.items) < MaxStr
     /\ \E i \in CharsIn("r") \cup (IF tok.hashes > 0 THEN CharsIn("q") ELSE {}) :
          tok' = [tok EXCEPT !.items = Append(@, i)]
  \/ /\ tok.kind = "int" /\ Len(tok.digits) < MaxDigits
     /\ \E d \in RadixDigits(tok.radix) : tok' = [tok EXCEPT !.digits = Append(@, d)]
  \/ /\ tok.kind = "float" /\ Len(tok.ip) + Len(tok.fp) < MaxDigits
     /\ \E d \in FloatDigits :
          \/ tok.fp = <<>> /\ tok' = [tok EXCEPT !.ip = Append(@, d)]
          \/ tok.dot /\ tok' = [tok EXCEPT !.fp = Append(@, d)]

RealDigits(ds) == SelectSeq(ds, LAMBDA c : c # "_")
Complete ==
  CASE tok.kind = "int" -> /\ RealDigits(tok.digits) # <<>>
                           /\ tok.radix = 10 => tok.digits[1] # "_"
                           /\ Fits(tok.digits, tok.radix, tok.suffix)
    [] tok.kind = "float" ->
         /\ tok.ip # <<>> /\ tok.ip[1] # "_"
         /\ tok.dot /\ tok.fp # <<>> => tok.fp[1] # "_"
         (* "1." alone ends the token: no exponent or suffix may follow *)
         /\ (tok.dot /\ tok.fp = <<>>) => tok.ex = <<>> /\ tok.suffix = ""
         (* without point and exponent only a suffix makes it a float *)
         /\ (~tok.dot /\ tok.ex = <<>>) => tok.suffix # ""
         /\ ~tok.dot => tok.fp = <<>>
    [] OTHER -> TRUE

Signed(t) == t.kind = "float" \/ (t.kind = "int" /\ t.suffix \in {"", "i8", "i16", "i32", "i64", "i128", "isize"})
Next == \/ ~done /\ Type /\ done' = FALSE
        \/ ~done /\ Complete /\ done' = TRUE /\ tok' = tok
        \/ ~done /\ Complete /\ Signed(tok) /\ done' = TRUE /\ tok' = [kind |-> "neg", of |-> tok]
        \/ ~done /\ Complete /\ Len(Source(tok)) <= 6 /\ done' = TRUE /\ tok' = [kind |-> "unit", of |-> tok]

(* numerals agree with machine arithmetic where that is wide enough *)
RECURSIVE Horner(_, _, _)
Horner(ds, radix, acc) == IF ds = <<>> THEN acc
  ELSE IF Head(ds) = "_" THEN Horner(Tail(ds), radix, acc)
  ELSE Horner(Tail(ds), radix, acc * radix + DigitOf(Head(ds)))
SmallAgrees == done /\ tok.kind = "int" /\ Len(tok.digits) <= 7 =>
  Value(tok) = ShowInt(Horner(tok.digits, tok.radix, 0))
(* re-reading the text of an integer gives the same text *)
Stable == done /\ tok.kind = "int" =>
  LET v == Value(tok) IN Show(Read([i \in 1..Len(v) |-> Ch(v, i)], 10)) = v
(* the text of a float, read again, is the same float *)
FloatStable == done /\ tok.kind = "float" /\ Known(tok) =>
  LET v == Value(tok)
      n == Len(v)
      at(c) == {i \in 1..n : Ch(v, i) = c}
      p == IF at(".") = {} THEN 0 ELSE CHOOSE i \in at(".") : TRUE
      x == IF at("e") = {} THEN n + 1 ELSE CHOOSE i \in at("e") : TRUE
      cs(a, b) == [i \in 1..(b - a + 1) |-> Ch(v, a + i - 1)]
      ip == cs(1, (IF p = 0 THEN x ELSE p) - 1)
      fp == IF p = 0 THEN <<>> ELSE cs(p + 1, x - 1)
      neg == x < n /\ Ch(v, x + 1) = "-"
      ed == IF x > n THEN <<>> ELSE cs(x + 1 + (IF neg THEN 1 ELSE 0), n)
      e == ToInt(Digits(ed), 0)
  IN Signif(ip, fp, IF neg THEN -e ELSE e).d = FloatOf(tok).d
     /\ (FloatOf(tok).d # <<>> => Signif(ip, fp, IF neg THEN -e ELSE e).kk = FloatOf(tok).kk)

Emit == done => PrintT(ToJson([tok |-> tok, src |-> Source(tok)]))

SomeExps == {<<"", <<>> >>, <<"e", <<"0">> >>, <<"E", <<"5">> >>, <<"e-", <<"7">> >>, <<"e+", <<"1", "_", "6">> >>,
             <<"e-", <<"0", "2">> >>, <<"E", <<"2", "1">> >>}
MoreExps == SomeExps \cup {<<"e", <<"1", "2">> >>, <<"e", <<"1", "3">> >>, <<"e", <<"1", "5">> >>, <<"e-", <<"4">> >>,
             <<"e-", <<"5">> >>, <<"e-", <<"6">> >>, <<"e-", <<"3", "0">> >>, <<"e", <<"2", "9">> >>}
=============================================================================
