------------------------------ MODULE Decimal ------------------------------
(***************************************************************************)
(* Natural numbers of any size, as sequences of base-10000 digits, least   *)
(* first, and what it means for a decimal text to be a float's shortest.   *)
(***************************************************************************)
EXTENDS Text, Integers

Base == 10000
RECURSIVE Fuse(_, _, _)
Fuse(d, m, a) ==            \* d * m + a, for m up to 2^16
  IF d = <<>> THEN (IF a = 0 THEN <<>> ELSE <<a % Base>> \o Fuse(<<>>, m, a \div Base))
  ELSE LET v == Head(d) * m + a IN <<v % Base>> \o Fuse(Tail(d), m, v \div Base)
RECURSIVE Cut(_)
Cut(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Cut(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Sub(_, _)         \* d - a, for a < Base <= d or a single digit
Sub(d, a) == IF a = 0 THEN d
             ELSE IF Head(d) >= a THEN <<Head(d) - a>> \o Tail(d)
             ELSE <<Head(d) + Base - a>> \o Sub(Tail(d), 1)
RECURSIVE LessIn(_, _, _)
LessIn(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessIn(a, b, i - 1)
Less(x, y) == LET a == Cut(x) b == Cut(y) IN
  IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessIn(a, b, Len(a))
RECURSIVE Two(_, _)         \* d * 2^n
Two(d, n) == IF n = 0 THEN d ELSE IF n >= 16 THEN Two(Fuse(d, 65536, 0), n - 16) ELSE Two(Fuse(d, 2, 0), n - 1)
RECURSIVE Ten(_, _)         \* d * 10^n
Ten(d, n) == IF n = 0 THEN d ELSE IF n >= 4 THEN <<0>> \o Ten(d, n - 4) ELSE Ten(Fuse(d, 10, 0), n - 1)
Odd(d) == d # <<>> /\ Head(d) % 2 = 1

Hex == "0123456789abcdef"
DigitVal(c) == (CHOOSE i \in 1..16 : Ch(Hex, i) = c) - 1
RECURSIVE FromHexIn(_, _, _)
FromHexIn(s, i, acc) == IF i > Len(s) THEN acc ELSE FromHexIn(s, i + 1, Fuse(acc, 16, DigitVal(Ch(s, i))))
FromHex(s) == FromHexIn(s, 1, <<>>)
RECURSIVE FromDigits(_, _)
FromDigits(q, acc) == IF q = <<>> THEN acc ELSE FromDigits(Tail(q), Fuse(acc, 10, Head(q)))

RECURSIVE Str(_)
Str(n) == IF n < 0 THEN "-" \o Str(-n) ELSE IF n < 10 THEN Ch(Hex, n + 1) ELSE Str(n \div 10) \o Ch(Hex, (n % 10) + 1)
Four(n) == Ch(Hex, (n \div 1000) + 1) \o Ch(Hex, ((n \div 100) % 10) + 1)
           \o Ch(Hex, ((n \div 10) % 10) + 1) \o Ch(Hex, (n % 10) + 1)
RECURSIVE Rest4(_)
Rest4(d) == IF d = <<>> THEN "" ELSE Rest4(Tail(d)) \o Four(Head(d))
Numeral(d) == LET c == Cut(d) IN
  IF c = <<>> THEN "0" ELSE Str(c[Len(c)]) \o Rest4(SubSeq(c, 1, Len(c) - 1))
=============================================================================
