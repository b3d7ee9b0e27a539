--------------------------- MODULE MCEscapeScan ---------------------------
(* Two families of texts: all texts up to a length over scaled-down vector *)
(* widths, and sparse texts at the real widths.                            *)
EXTENDS EscapeScan

CONSTANTS MaxLen, RealLens

AllTexts == UNION {[1..n -> {"p", "s", "k"}] : n \in 0..MaxLen}

Sparse(n) ==
  {[i \in 1..n |-> "p"]}
  \cup {[i \in 1..n |-> IF i = a THEN "s" ELSE IF i = b THEN c ELSE "p"] :
          a \in 1..n, b \in {1, n \div 2, n}, c \in {"s", "k"}}
  \cup {[i \in 1..n |-> "s"], [i \in 1..n |-> "k"],
        [i \in 1..n |-> IF i % 2 = 0 THEN "s" ELSE "k"]}
SparseTexts == UNION {Sparse(n) : n \in RealLens \ {0}}

(* Hands every text that was scanned to the conformance driver, once *)
RECURSIVE AsString(_)
AsString(t) == IF Len(t) = 0 THEN "" ELSE IF Len(t) = 1 THEN t[1]
               ELSE LET h == Len(t) \div 2
                    IN  AsString(SubSeq(t, 1, h)) \o AsString(SubSeq(t, h + 1, Len(t)))
Emit == (pc = "done" /\ eng \in {"small", "sse"} /\ align = 0) =>
          PrintT(<<"TEXT", AsString(text)>>)
=============================================================================
