------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The canonical text of scalars and of the values that wrap them.         *)
(***************************************************************************)
EXTENDS Literal, Decimal, FiniteSets

(* -------------------------------------------------------------- integers *)
IntText(neg, hex) == LET t == Numeral(FromHex(hex)) IN IF neg /\ t # "0" THEN "-" \o t ELSE t

(* ------------------------------------------------------------ characters *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Byte(b) == IF b = 92 THEN "\\\\"
           ELSE IF b >= 32 /\ b <= 126 THEN Ch(Printable, b - 31)
           ELSE "\\x" \o Ch(Hex, (b \div 16) + 1) \o Ch(Hex, (b % 16) + 1)
CharText(c) ==
  IF c < 128 THEN EscChar(Byte(c))
  ELSE IF c < 2048 THEN Byte(192 + (c \div 64)) \o Byte(128 + (c % 64))
  ELSE IF c < 65536 THEN Byte(224 + (c \div 4096)) \o Byte(128 + ((c \div 64) % 64)) \o Byte(128 + (c % 64))
  ELSE Byte(240 + (c \div 262144)) \o Byte(128 + ((c \div 4096) % 64))
       \o Byte(128 + ((c \div 64) % 64)) \o Byte(128 + (c % 64))
Scalars(lo, hi) == SelectSeq([i \in 1..(hi - lo + 1) |-> lo + i - 1], LAMBDA c : c < 55296 \/ c > 57343)

(* ---------------------------------------------------------------- floats *)
(* A finite float is m * 2^e.  edge: the one below it is only half as far  *)
(* away.  Which decimals read back as it: those nearer to it than to its   *)
(* neighbours, and the points halfway when m is even.                      *)
CmpLE(D, k, B, s) ==      \* D * 10^k <= B * 2^s
  LET l == Two(IF k > 0 THEN Ten(D, k) ELSE D, IF s < 0 THEN -s ELSE 0)
      r == Two(IF k < 0 THEN Ten(B, -k) ELSE B, IF s > 0 THEN s ELSE 0)
  IN  ~Less(r, l)
CmpLT(D, k, B, s) ==
  LET l == Two(IF k > 0 THEN Ten(D, k) ELSE D, IF s < 0 THEN -s ELSE 0)
      r == Two(IF k < 0 THEN Ten(B, -k) ELSE B, IF s > 0 THEN s ELSE 0)
  IN  Less(l, r)
ReadsBack(D, k, m, e, edge) ==
  LET m4 == Fuse(m, 4, 0)
      lo == Sub(m4, IF edge THEN 1 ELSE 2)
      hi == Fuse(m, 4, 2)
  IN  IF Odd(m) THEN ~CmpLE(D, k, lo, e - 2) /\ CmpLT(D, k, hi, e - 2)
      ELSE ~CmpLT(D, k, lo, e - 2) /\ CmpLE(D, k, hi, e - 2)

(* d: decimal digits without leading or trailing zeros; the value is       *)
(* d * 10^k.  No shorter decimal reads back as the same float.             *)
Shortest(d, k, m, e, edge) ==
  /\ ReadsBack(FromDigits(d, <<>>), k, m, e, edge)
  /\ Len(d) > 1 =>
       LET q == FromDigits(SubSeq(d, 1, Len(d) - 1), <<>>) IN
       ~ReadsBack(q, k + 1, m, e, edge) /\ ~ReadsBack(Fuse(q, 1, 1), k + 1, m, e, edge)

(* the fields of a float, from its bits in hexadecimal *)
H(bits, i) == DigitVal(Ch(bits, i))
Double(ty) == ty = "f64"
Negative(bits) == H(bits, 1) >= 8
ExpBits(ty, bits) == IF Double(ty) THEN (H(bits, 1) % 8) * 256 + H(bits, 2) * 16 + H(bits, 3)
                     ELSE (H(bits, 1) % 8) * 32 + H(bits, 2) * 2 + (H(bits, 3) \div 8)
FracHex(ty, bits) == IF Double(ty) THEN SubSeq(bits, 4, 16)
                     ELSE Ch(Hex, (H(bits, 3) % 8) + 1) \o SubSeq(bits, 4, 8)
FullHex(ty, bits) == IF Double(ty) THEN "1" \o SubSeq(bits, 4, 16)
                     ELSE Ch(Hex, (H(bits, 3) % 8) + 9) \o SubSeq(bits, 4, 8)
FracZero(ty, bits) == \A i \in 1..Len(FracHex(ty, bits)) : Ch(FracHex(ty, bits), i) = "0"
Special2(ty, bits) == ExpBits(ty, bits) = (IF Double(ty) THEN 2047 ELSE 255)
Mant(ty, bits) == Cut(FromHex(IF ExpBits(ty, bits) = 0 THEN FracHex(ty, bits) ELSE FullHex(ty, bits)))
Expo(ty, bits) == LET x == ExpBits(ty, bits) IN
  (IF x = 0 THEN 1 ELSE x) - (IF Double(ty) THEN 1075 ELSE 150)
Edge(ty, bits) == FracZero(ty, bits) /\ ExpBits(ty, bits) > 1

(* reading a printed float: its digits and where the point is *)
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)
Chars2(s) == [i \in 1..Len(s) |-> Ch(s, i)]
IsDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Unsigned(s) == IF s # "" /\ Ch(s, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s
Mantissa(s) == LET p == Find(s, "e", 1) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
ExpText(s) == LET p == Find(s, "e", 1) IN IF p = 0 THEN "0" ELSE SubSeq(s, p + 1, Len(s))
IntPart(s) == LET p == Find(s, ".", 1) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
FracPart(s) == LET p == Find(s, ".", 1) IN IF p = 0 THEN "" ELSE SubSeq(s, p + 1, Len(s))
WellFormed(s) == LET m == Mantissa(s) IN
  /\ IsDigits(IntPart(m)) /\ (Find(m, ".", 1) # 0 => IsDigits(FracPart(m)))
  /\ IsDigits(Unsigned(ExpText(s))) /\ Len(ExpText(s)) <= 5
ReadExp(s) == LET t == ExpText(s) n == ToInt(Digits(Chars2(Unsigned(t))), 0) IN
  IF Ch(t, 1) = "-" THEN -n ELSE n
ReadFloat(s) == LET m == Mantissa(s) IN Signif(Chars2(IntPart(m)), Chars2(FracPart(m)), ReadExp(s))

FloatTextOk(ty, bits, t) ==
  IF Special2(ty, bits)
  THEN t = (IF ~FracZero(ty, bits) THEN "NaN" ELSE IF Negative(bits) THEN "-inf" ELSE "inf")
  ELSE LET u == Unsigned(t) m == Mant(ty, bits) IN
    /\ Negative(bits) = (t # u)
    /\ WellFormed(u)
    /\ LET f == ReadFloat(u) IN
       /\ u = ShowFloat(f, ~Double(ty))
       /\ IF m = <<>> THEN f.d = <<>>
          ELSE f.d # <<>> /\ Shortest(f.d, f.kk - Len(f.d), m, Expo(ty, bits), Edge(ty, bits))

(* -------------------------------------------------------------- wrappers *)
(* base: a value and its text; some, cowb, cowo: a value around another    *)
RECURSIVE TermText(_)
TermText(x) ==
  CASE x.w = "base" -> x.t
    [] x.w = "none" -> ""
    [] OTHER -> TermText(x.x)
=============================================================================
