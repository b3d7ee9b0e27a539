------------------------------- MODULE Text -------------------------------
(* Texts are TLA+ strings in the drivers' injective ASCII encoding: every  *)
(* character below stands for one byte, except that a backslash starts an  *)
(* encoded byte.  The five special characters always stand for themselves, *)
(* so escaping commutes with the encoding.                                 *)
EXTENDS Naturals, Sequences

Special == {"&", "\"", "'", "<", ">"}

EscChar(c) ==
  CASE c = "&"  -> "&amp;"
    [] c = "\"" -> "&quot;"
    [] c = "'"  -> "&#39;"
    [] c = "<"  -> "&lt;"
    [] c = ">"  -> "&gt;"
    [] OTHER    -> c

(* The escaped form of a text: the concatenation of its escaped characters *)
RECURSIVE Esc(_)
Esc(s) ==
  IF Len(s) = 0 THEN ""
  ELSE IF Len(s) = 1 THEN EscChar(s)
  ELSE LET h == Len(s) \div 2
       IN  Esc(SubSeq(s, 1, h)) \o Esc(SubSeq(s, h + 1, Len(s)))

(* Concatenation of a sequence of texts *)
RECURSIVE CatIn(_, _, _)
CatIn(q, lo, hi) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN q[lo]
  ELSE LET m == (lo + hi) \div 2 IN CatIn(q, lo, m) \o CatIn(q, m + 1, hi)
Cat(q) == CatIn(q, 1, Len(q))

(* Concatenation of a sequence of sequences *)
RECURSIVE FlatIn(_, _, _)
FlatIn(q, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN q[lo]
  ELSE LET m == (lo + hi) \div 2 IN FlatIn(q, lo, m) \o FlatIn(q, m + 1, hi)
Flat(q) == FlatIn(q, 1, Len(q))

(* The texts with a separator exactly between consecutive ones *)
RECURSIVE Join(_, _)
Join(q, sep) ==
  IF q = <<>> THEN ""
  ELSE IF Len(q) = 1 THEN q[1]
  ELSE q[1] \o sep \o Join(Tail(q), sep)

Ch(s, i) == SubSeq(s, i, i)
=============================================================================
