----------------------------- MODULE MCReading -----------------------------
(***************************************************************************)
(* Values of any content, one character after the other, escaped, put      *)
(* where a template puts values: into text, a quoted attribute value, an   *)
(* attribute name, or an element that holds only text.  The reader is back *)
(* where it was after every character, and has read exactly the value.     *)
(***************************************************************************)
EXTENDS Reading, TLC
CONSTANT Most
Alphabet == {"<", ">", "&", "\"", "'", "=", "/", "!", "-", " ", "#", ";", "3", "9", "a", "l", "t", "T"}
VARIABLES place, s, v, n

Opening == [text |-> "<p>", attr |-> "<p a=\"", name |-> "<p a", title |-> "<title>", script |-> "<script>"]
Ending == [text |-> "</p>", attr |-> "\"></p>", name |-> "=\"1\"></p>", title |-> "</title>", script |-> "</script>"]
Init == /\ place \in DOMAIN Opening /\ s = Feed(Fresh, Opening[place], 1) /\ v = "" /\ n = 0
(* a name is one name only without these *)
Fit == IF place = "name" THEN Alphabet \ {" ", "=", "/"} ELSE Alphabet
Next == n < Most /\ \E c \in Fit :
  v' = v \o c /\ s' = Feed(s, EscChar(c), 1) /\ n' = n + 1 /\ place' = place

(* nothing of the state but the value read so far has changed *)
Rest0 == [x \in DOMAIN s \ {"t", "av", "an"} |-> s[x]]
Start == Feed(Fresh, Opening[place], 1)
Steady == Rest0 = [x \in DOMAIN s \ {"t", "av", "an"} |-> Start[x]]
Exact == CASE place \in {"text", "title"} -> s.t = v
           [] place = "script" -> s.t = Esc(v)
           [] place = "attr" -> s.av = v /\ s.an = "a"
           [] place = "name" -> s.an = "a" \o Low(Esc(v))
(* and the whole reads as one element *)
P(a, t, tag) == <<Tok("start", tag, a, "")>> \o TextTok(t) \o <<Tok("end", tag, <<>>, "")>>
Whole == Read(Opening[place] \o Esc(v) \o Ending[place]) =
  CASE place = "text" -> P(<<>>, v, "p") [] place = "title" -> P(<<>>, v, "title")
    [] place = "script" -> P(<<>>, Esc(v), "script")
    [] place = "attr" -> P(<<[n |-> "a", v |-> v]>>, "", "p")
    [] place = "name" -> P(<<[n |-> "a" \o Low(Esc(v)), v |-> "1"]>>, "", "p")

(* the reader itself tells the difference: without escaping, each of these reads otherwise *)
ASSUME \A x \in {"</p>", "<b>", "<!--", "&lt;", "&#39;", "&amp"} : Read("<p>" \o x \o "</p>") # P(<<>>, x, "p")
ASSUME \A x \in {"\"", "\" b=\"", "&quot;", "\">"} :
  Read("<p a=\"" \o x \o "\"></p>") # P(<<[n |-> "a", v |-> x]>>, "", "p")
ASSUME \A x \in {"</title>", "&gt;"} : Read("<title>" \o x \o "</title>") # P(<<>>, x, "title")
ASSUME Read("<script></p>&lt;</script>") = P(<<>>, "</p>&lt;", "script")
ASSUME Read("<!DOCTYPE html><p a='1' b c=d/>x<br>&nbsp;&copy2") =
  <<Tok("doctype", "", <<>>, ""), Tok("start", "p", <<[n |-> "a", v |-> "1"], [n |-> "b", v |-> ""], [n |-> "c", v |-> "d/"]>>, ""),
    Tok("text", "", <<>>, "x"), Tok("start", "br", <<>>, ""), Tok("text", "", <<>>, "(NB)(C)2")>>
=============================================================================
