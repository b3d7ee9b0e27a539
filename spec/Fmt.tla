-------------------------------- MODULE Fmt --------------------------------
(***************************************************************************)
(* A value that formats itself in pieces, as std's formatting machinery    *)
(* would write them: strings, characters, padded strings (text, then the   *)
(* padding one character at a time), and arguments nested in literal text. *)
(* The renderer escapes each piece as it comes; whatever the pieces, the   *)
(* result is the escaped form of their concatenation.                      *)
(***************************************************************************)
EXTENDS Text, Integers, TLC, Json

CONSTANTS Texts, Pads, MaxPieces, MaxDepth

VARIABLES pieces, writes, next, out, failed
vars == <<pieces, writes, next, out, failed>>

FewTexts == {"", "a", "<", "&>x", "\""}
MoreTexts == {"", "a", "<", "&", "\"", "'", "it's", "x>y&z", "0123456789abcdefg<"}

RECURSIVE Fill(_, _)
Fill(c, n) == IF n <= 0 THEN "" ELSE c \o Fill(c, n - 1)
(* texts here have one character per byte, so Len counts characters *)
Width(t) == Len(t)

PieceText(p) ==
  CASE p.p = "str"  -> p.t
    [] p.p = "char" -> p.t
    [] p.p = "pad"  -> p.t \o Fill(p.c, p.n - Width(p.t))
    [] p.p = "lpad" -> Fill(p.c, p.n - Width(p.t)) \o p.t
    [] p.p = "cpad" -> Fill(p.c, (p.n - Width(p.t)) \div 2) \o p.t
                       \o Fill(p.c, (p.n - Width(p.t)) - ((p.n - Width(p.t)) \div 2))
    [] p.p = "prec" -> SubSeq(p.t, 1, IF p.n < Width(p.t) THEN p.n ELSE Width(p.t))
    [] p.p = "args" -> "<" \o p.t \o ">"
    [] p.p = "fail" -> ""
Plain(ps) == Cat([i \in 1..Len(ps) |-> PieceText(ps[i])])

(* the calls that reach the writer: each is a text written at once *)
Fills(c, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
PieceWrites(p) ==
  CASE p.p \in {"str", "char"} -> <<p.t>>
    [] p.p = "pad"  -> <<p.t>> \o Fills(p.c, p.n - Width(p.t))
    [] p.p = "lpad" -> Fills(p.c, p.n - Width(p.t)) \o <<p.t>>
    [] p.p = "cpad" -> Fills(p.c, (p.n - Width(p.t)) \div 2) \o <<p.t>>
                       \o Fills(p.c, (p.n - Width(p.t)) - ((p.n - Width(p.t)) \div 2))
    [] p.p = "prec" -> <<PieceText(p)>>
    [] p.p = "args" -> <<"<", p.t, ">">>
    [] p.p = "fail" -> <<>>

Pieces == [p : {"str", "args"}, t : Texts, c : {" "}, n : {0}]
          \cup [p : {"char"}, t : {t \in Texts : Len(t) = 1}, c : {" "}, n : {0}]
          \cup [p : {"pad", "lpad", "cpad"}, t : {t \in Texts : Len(t) <= 3}, c : {" ", "<", "&"}, n : Pads]
          \cup [p : {"prec"}, t : Texts, c : {" "}, n : {1, 2}]
          \cup [p : {"fail"}, t : {""}, c : {" "}, n : {0}]

FirstFail(ps) == LET f == {i \in 1..Len(ps) : ps[i].p = "fail"} IN
  IF f = {} THEN 0 ELSE CHOOSE i \in f : \A j \in f : i <= j
(* what is written before a failure *)
Written(ps) == IF FirstFail(ps) = 0 THEN ps ELSE SubSeq(ps, 1, FirstFail(ps) - 1)

Init == pieces = <<>> /\ writes = <<>> /\ next = 0 /\ out = "" /\ failed = FALSE
Add == next = 0 /\ Len(pieces) < MaxPieces
       /\ \E p \in Pieces : (p.p = "fail" => FirstFail(pieces) = 0) /\ pieces' = Append(pieces, p)
       /\ UNCHANGED <<writes, next, out, failed>>
Begin == next = 0 /\ next' = 1 /\ UNCHANGED <<pieces, out, failed>>
         /\ writes' = Flat([i \in 1..Len(Written(pieces)) |-> PieceWrites(pieces[i])])
Write == /\ next > 0 /\ next <= Len(writes) /\ ~failed
         /\ out' = out \o Esc(writes[next]) /\ next' = next + 1 /\ UNCHANGED <<pieces, writes, failed>>
Stop == /\ next > Len(writes) /\ ~failed /\ FirstFail(pieces) > 0 /\ failed' = TRUE
        /\ UNCHANGED <<pieces, writes, next, out>>
Next == Add \/ Begin \/ Write \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Write \/ Stop)

Commutes == next > Len(writes) => out = Esc(Plain(Written(pieces)))
Before == next > 0 => LET w == Esc(Plain(Written(pieces))) IN
  Len(out) <= Len(w) /\ SubSeq(w, 1, Len(out)) = out
Emit == next = 1 => PrintT(ToJson(pieces))
=============================================================================
