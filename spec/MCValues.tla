------------------------------ MODULE MCValues ------------------------------
(***************************************************************************)
(* Sanity of Values over small numbers and a small float format (every     *)
(* float of P bits and exponents -X..X), and the wrapped values to render. *)
(***************************************************************************)
EXTENDS Values, TLC, Json
CONSTANTS P, X, MaxWrap, Bases

Floats == {[m |-> m, e |-> e] : m \in 1..(2^P - 1), e \in -X..X}
Normal(f) == f.m >= 2^(P - 1) \/ f.e = -X
Canon == {f \in Floats : Normal(f)}
Big2(n) == Cut(<<n % Base, n \div Base>>)
EdgeOf(f) == f.m = 2^(P - 1) /\ f.e > -X
Back(d, k, f) == ReadsBack(Big2(d), k, Big2(f.m), f.e, EdgeOf(f))
Ds == 1..999
Ks == -4..3

VARIABLES what, f, term, n
vars == <<what, f, term, n>>
NoF == [m |-> 0, e |-> 0]
Leafs == {[w |-> "base", b |-> b] : b \in Bases} \cup {[w |-> "none", b |-> "none"]}
Init == \/ what = "float" /\ f \in Canon /\ term = [w |-> "none", b |-> ""] /\ n = 0
        \/ what = "term" /\ f = NoF /\ term \in Leafs /\ n = 0
        \/ what = "int" /\ f = NoF /\ term = [w |-> "none", b |-> ""] /\ n \in 0..3000
Wrap == what = "term" /\ n < MaxWrap /\ n' = n + 1 /\ UNCHANGED <<what, f>>
        /\ term' = [w |-> "some", x |-> term]
Next == Wrap
Spec == Init /\ [][Next]_vars

(* no decimal reads back as two floats; and halfway decimals as one *)
OneFloat == what = "float" =>
  \A d \in 1..99 : \A k \in Ks : Back(d, k, f) =>
     \A g \in Canon : g # f => ~Back(d, k, g)
(* the float itself reads back as itself: m * 2^e for e >= 0 *)
Itself == (what = "float" /\ f.e >= 0) => Back(f.m * 2^f.e, 0, f)
Counting == what = "int" =>
  /\ Numeral(Big2(n)) = ShowInt(n) /\ Numeral(Fuse(Big2(n), 7, 3)) = ShowInt(n * 7 + 3)
  /\ Numeral(Two(Big2(n), 17)) = ShowInt(n * 131072)
  /\ Numeral(Ten(Big2(n), 5)) = ShowInt(n * 100000)
  /\ n > 2 => Numeral(Cut(Sub(Fuse(Big2(n), 10000, 1), 2))) = ShowInt(n * 10000 - 1)
Emit == what = "term" => PrintT(ToJson(term))
=============================================================================
