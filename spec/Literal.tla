------------------------------ MODULE Literal ------------------------------
(***************************************************************************)
(* Literal tokens: how they are written (Source) and which text their      *)
(* value renders as (Value).  Numbers are sequences of decimal digits of   *)
(* any length, so no width limits the specification.                       *)
(***************************************************************************)
EXTENDS Text, Integers

(* ------------------------------------------------------------- numerals *)
HexDigits == "0123456789abcdef"
UpDigits == "0123456789ABCDEF"
DigitOf(c) == LET p == {i \in 1..16 : Ch(HexDigits, i) = c \/ Ch(UpDigits, i) = c}
              IN (CHOOSE i \in p : TRUE) - 1

(* little-endian decimal digit sequences: d * m + a *)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, m, a) ==
  IF d = <<>> THEN (IF a = 0 THEN <<>> ELSE <<a % 10>> \o MulAdd(<<>>, m, a \div 10))
  ELSE LET v == Head(d) * m + a IN <<v % 10>> \o MulAdd(Tail(d), m, v \div 10)

RECURSIVE ReadIn(_, _, _)
ReadIn(ds, radix, acc) ==
  IF ds = <<>> THEN acc
  ELSE IF Head(ds) = "_" THEN ReadIn(Tail(ds), radix, acc)
  ELSE ReadIn(Tail(ds), radix, MulAdd(acc, radix, DigitOf(Head(ds))))
Read(ds, radix) == ReadIn(ds, radix, <<>>)

RECURSIVE ShowIn(_)
ShowIn(d) == IF d = <<>> THEN "" ELSE ShowIn(Tail(d)) \o Ch(HexDigits, Head(d) + 1)
RECURSIVE Trim(_)
Trim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
Show(d) == LET t == Trim(d) IN IF t = <<>> THEN "0" ELSE ShowIn(t)

RECURSIVE LeqIn(_, _, _)
LeqIn(a, b, i) == IF i = 0 THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqIn(a, b, i - 1)
Leq(x, y) == LET a == Trim(x) b == Trim(y) IN
  IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LeqIn(a, b, Len(a))

(* the largest value of each integer type, in hexadecimal *)
Ones(n, first) == <<first>> \o [i \in 1..n |-> "f"]
MaxHex(suffix) ==
  CASE suffix = "u8" -> Ones(1, "f") [] suffix = "i8" -> Ones(1, "7")
    [] suffix = "u16" -> Ones(3, "f") [] suffix = "i16" -> Ones(3, "7")
    [] suffix = "u32" -> Ones(7, "f") [] suffix \in {"i32", ""} -> Ones(7, "7")
    [] suffix \in {"u64", "usize"} -> Ones(15, "f") [] suffix \in {"i64", "isize"} -> Ones(15, "7")
    [] suffix = "u128" -> Ones(31, "f") [] suffix = "i128" -> Ones(31, "7")
Fits(ds, radix, suffix) == Leq(Read(ds, radix), Read(MaxHex(suffix), 16))

(* --------------------------------------------------------------- floats *)
(* digits ip.fp times ten to the power ex (a sequence of digits, negative  *)
(* when neg); printed in the shortest form, as the renderer prints it      *)
RECURSIVE Digits(_)
Digits(ds) == IF ds = <<>> THEN <<>>
              ELSE IF Head(ds) = "_" THEN Digits(Tail(ds)) ELSE <<DigitOf(Head(ds))>> \o Digits(Tail(ds))
RECURSIVE ToInt(_, _)
ToInt(ds, acc) == IF ds = <<>> THEN acc ELSE ToInt(Tail(ds), acc * 10 + Head(ds))
RECURSIVE Lead(_)
Lead(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN 1 + Lead(Tail(ds)) ELSE 0
RECURSIVE Big(_)
Big(ds) == IF ds = <<>> THEN "" ELSE Ch(HexDigits, Head(ds) + 1) \o Big(Tail(ds))
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
RECURSIVE ShowInt(_)
ShowInt(n) == IF n < 0 THEN "-" \o ShowInt(-n)
              ELSE IF n < 10 THEN Ch(HexDigits, n + 1) ELSE ShowInt(n \div 10) \o Ch(HexDigits, (n % 10) + 1)

(* significant digits and the position of the point: 0.d1d2d3.. * 10^kk    *)
Signif(ip, fp, e) ==
  LET all == Digits(ip) \o Digits(fp)
      z == Lead(all)
      d == Trim(SubSeq(all, z + 1, Len(all)))
  IN  [d |-> d, kk |-> Len(Digits(ip)) - z + e]

ShowFloat(s, single) ==
  LET d == s.d kk == s.kk n == Len(s.d)
      hi == IF single THEN 13 ELSE 16
      lo == IF single THEN -6 ELSE -5
  IN IF d = <<>> THEN "0.0"
     ELSE IF n <= kk /\ kk <= hi THEN Big(d) \o Zeros(kk - n) \o ".0"
     ELSE IF 0 < kk /\ kk <= hi THEN Big(SubSeq(d, 1, kk)) \o "." \o Big(SubSeq(d, kk + 1, n))
     ELSE IF lo < kk /\ kk <= 0 THEN "0." \o Zeros(-kk) \o Big(d)
     ELSE IF n = 1 THEN Big(d) \o "e" \o ShowInt(kk - 1)
     ELSE Big(SubSeq(d, 1, 1)) \o "." \o Big(SubSeq(d, 2, n)) \o "e" \o ShowInt(kk - 1)

(* a decimal with few enough digits is its own shortest form *)
Exact(s, single) == /\ Len(s.d) <= (IF single THEN 6 ELSE 15)
                    /\ s.kk \in (IF single THEN -30..30 ELSE -290..290)

(* ----------------------------------------------------------------- text *)
(* every way to write a character: w written, v value (both encoded), in   *)
(* strings, characters and bytes; n its number for bytes                   *)
Chars == <<
  [w |-> "a", v |-> "a", in |-> "scbr", n |-> 97],
  [w |-> "Z", v |-> "Z", in |-> "scbr", n |-> 90],
  [w |-> "<", v |-> "<", in |-> "scbr", n |-> 60],
  [w |-> ">", v |-> ">", in |-> "scbr", n |-> 62],
  [w |-> "&", v |-> "&", in |-> "scbr", n |-> 38],
  [w |-> "'", v |-> "'", in |-> "sr", n |-> 39],
  [w |-> "\"", v |-> "\"", in |-> "cbq", n |-> 34],
  [w |-> " ", v |-> " ", in |-> "scbr", n |-> 32],
  [w |-> "/", v |-> "/", in |-> "scbr", n |-> 47],
  [w |-> "{", v |-> "{", in |-> "scbr", n |-> 123],
  [w |-> "}", v |-> "}", in |-> "scbr", n |-> 125],
  [w |-> "0", v |-> "0", in |-> "scbr", n |-> 48],
  [w |-> "\\x0a", v |-> "\\x0a", in |-> "sr", n |-> 10],       \* a real line break
  [w |-> "\\x09", v |-> "\\x09", in |-> "sr", n |-> 9],        \* a real tab
  [w |-> "\\xc3\\xa9", v |-> "\\xc3\\xa9", in |-> "scr", n |-> 0],
  [w |-> "\\xe2\\x82\\xac", v |-> "\\xe2\\x82\\xac", in |-> "scr", n |-> 0],
  [w |-> "\\xf0\\x9f\\x98\\x80", v |-> "\\xf0\\x9f\\x98\\x80", in |-> "scr", n |-> 0],
  [w |-> "\\\\", v |-> "\\\\", in |-> "r", n |-> 92],          \* a bare backslash, raw strings only
  [w |-> "\\\\n", v |-> "\\x0a", in |-> "scb", n |-> 10],
  [w |-> "\\\\r", v |-> "\\x0d", in |-> "scb", n |-> 13],
  [w |-> "\\\\t", v |-> "\\x09", in |-> "scb", n |-> 9],
  [w |-> "\\\\0", v |-> "\\x00", in |-> "scb", n |-> 0],
  [w |-> "\\\\\\\\", v |-> "\\\\", in |-> "scb", n |-> 92],
  [w |-> "\\\\'", v |-> "'", in |-> "scb", n |-> 39],
  [w |-> "\\\\\"", v |-> "\"", in |-> "scb", n |-> 34],
  [w |-> "\\\\x3c", v |-> "<", in |-> "scb", n |-> 60],
  [w |-> "\\\\x26", v |-> "&", in |-> "scb", n |-> 38],
  [w |-> "\\\\x7F", v |-> "\\x7f", in |-> "scb", n |-> 127],
  [w |-> "\\\\xff", v |-> "", in |-> "b", n |-> 255],
  [w |-> "\\\\x80", v |-> "", in |-> "b", n |-> 128],
  [w |-> "\\\\u{3e}", v |-> ">", in |-> "sc", n |-> 0],
  [w |-> "\\\\u{22}", v |-> "\"", in |-> "sc", n |-> 0],
  [w |-> "\\\\u{0_0e9}", v |-> "\\xc3\\xa9", in |-> "sc", n |-> 0],
  [w |-> "\\\\u{20AC}", v |-> "\\xe2\\x82\\xac", in |-> "sc", n |-> 0],
  [w |-> "\\\\u{1f600}", v |-> "\\xf0\\x9f\\x98\\x80", in |-> "sc", n |-> 0],
  [w |-> "\\\\u{10ffff}", v |-> "\\xf4\\x8f\\xbf\\xbf", in |-> "sc", n |-> 0],
  [w |-> "\\\\\\x0a   ", v |-> "", in |-> "z", n |-> 0]         \* a continued line
>>
Has(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
CharsIn(where) == {i \in 1..Len(Chars) : Has(Chars[i].in, where)}

RECURSIVE Hashes(_)
Hashes(n) == IF n = 0 THEN "" ELSE "#" \o Hashes(n - 1)
Prefix(radix) == CASE radix = 2 -> "0b" [] radix = 8 -> "0o" [] radix = 16 -> "0x" [] OTHER -> ""

(* tokens:  str items | rstr hashes items | char item | byte item | bool b |*)
(*          int radix digits suffix | float ip fp ex neg dot suffix         *)
(*          neg of: the same with a minus sign;  unit of: a statement, so  *)
(*          its block has no value and renders nothing                     *)
RECURSIVE Source(_)
Source(k) ==
  CASE k.kind = "str"  -> "\"" \o Cat([i \in 1..Len(k.items) |-> Chars[k.items[i]].w]) \o "\""
    [] k.kind = "rstr" -> "r" \o Hashes(k.hashes) \o "\""
                          \o Cat([i \in 1..Len(k.items) |-> Chars[k.items[i]].w])
                          \o "\"" \o Hashes(k.hashes)
    [] k.kind = "char" -> "'" \o Chars[k.item].w \o "'"
    [] k.kind = "byte" -> "b'" \o Chars[k.item].w \o "'"
    [] k.kind = "bool" -> IF k.b THEN "true" ELSE "false"
    [] k.kind = "neg"  -> "-" \o Source(k.of)
    [] k.kind = "unit" -> Source(k.of) \o ";"
    [] k.kind = "int"  -> Prefix(k.radix) \o Cat(k.digits) \o k.suffix
    [] k.kind = "float" -> Cat(k.ip) \o (IF k.dot THEN "." ELSE "") \o Cat(k.fp)
                           \o (IF k.ex = <<>> THEN "" ELSE k.e \o Cat(k.ex)) \o k.suffix

Exponent(k) == IF k.ex = <<>> THEN 0
               ELSE LET n == ToInt(Digits(k.ex), 0) IN IF Has(k.e, "-") THEN -n ELSE n
FloatOf(k) == Signif(k.ip, k.fp, Exponent(k))
Single(k) == k.suffix \in {"f32", "_f32"}

(* the specification knows every value but that of floats of many digits,  *)
(* which are only compared with the value at run time                      *)
RECURSIVE Known(_)
Known(k) == CASE k.kind = "float" -> Exact(FloatOf(k), Single(k))
              [] k.kind = "neg" -> Known(k.of)
              [] OTHER -> TRUE
RECURSIVE Value(_)
Value(k) ==
  CASE k.kind \in {"str", "rstr"} -> Cat([i \in 1..Len(k.items) |-> Chars[k.items[i]].v])
    [] k.kind = "char" -> Chars[k.item].v
    [] k.kind = "byte" -> ShowInt(Chars[k.item].n)
    [] k.kind = "bool" -> IF k.b THEN "true" ELSE "false"
    [] k.kind = "int"  -> Show(Read(k.digits, k.radix))
    \* an integer has no negative zero, a float has
    [] k.kind = "neg"  -> IF k.of.kind = "int" /\ Value(k.of) = "0" THEN "0" ELSE "-" \o Value(k.of)
    [] k.kind = "unit" -> ""
    [] k.kind = "float" -> ShowFloat(FloatOf(k), Single(k))
=============================================================================
