------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters as code points, their UTF-8 form, and what is written for    *)
(* each of them: itself, or its entity where text is escaped.  A record is *)
(* a sweep of all characters through one operation, as maximal runs of     *)
(* consecutive characters that came out as themselves in equally many      *)
(* bytes (what = "self"), or single characters that came out otherwise.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

IsChar(c) == c \in 0..1114111 /\ ~(c >= 55296 /\ c <= 57343)
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf8(c) ==
  CASE Utf8Len(c) = 1 -> <<c>>
    [] Utf8Len(c) = 2 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] Utf8Len(c) = 3 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64),
                  128 + (c % 64)>>

(* & " ' < > *)
Entity(c) ==
  CASE c = 38 -> <<38, 97, 109, 112, 59>>
    [] c = 34 -> <<38, 113, 117, 111, 116, 59>>
    [] c = 39 -> <<38, 35, 51, 57, 59>>
    [] c = 60 -> <<38, 108, 116, 59>>
    [] c = 62 -> <<38, 103, 116, 59>>
    [] OTHER  -> Utf8(c)
Specials == {34, 38, 39, 60, 62}

(* decoding is the inverse: two characters never share a form *)
Decode(b) ==
  CASE Len(b) = 1 -> b[1]
    [] Len(b) = 2 -> (b[1] - 192) * 64 + (b[2] - 128)
    [] Len(b) = 3 -> (b[1] - 224) * 4096 + (b[2] - 128) * 64 + (b[3] - 128)
    [] Len(b) = 4 -> (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + (b[4] - 128)

Written(esc, c) == IF esc THEN Entity(c) ELSE Utf8(c)

RunOk(esc, r) ==
  /\ IsChar(r.lo) /\ IsChar(r.hi) /\ r.lo <= r.hi
  /\ r.a = Written(esc, r.lo) /\ r.z = Written(esc, r.hi)
  /\ IF r.what = "self"
     THEN /\ Utf8Len(r.lo) = Utf8Len(r.hi)
          /\ esc => \A s \in Specials : ~(r.lo <= s /\ s <= r.hi)
          /\ ~(r.lo < 55296 /\ r.hi > 57343)
     ELSE r.what = "framed" /\ r.lo = r.hi

(* the runs are all of the characters, in order *)
Follows(a, b) == b.lo = a.hi + 1 \/ (a.hi = 55295 /\ b.lo = 57344)
SweepOk(x) ==
  /\ Len(x.runs) >= 1
  /\ x.runs[1].lo = 0 /\ x.runs[Len(x.runs)].hi = 1114111
  /\ \A j \in 2..Len(x.runs) : Follows(x.runs[j - 1], x.runs[j])
  /\ \A j \in 1..Len(x.runs) : RunOk(x.esc, x.runs[j])

(* ---- the model itself: the border characters and their neighbours ---- *)
Borders == {0, 1, 33, 34, 35, 38, 39, 60, 61, 62, 63, 126, 127, 128, 129, 2047, 2048, 4095, 4096,
            55295, 57344, 65535, 65536, 262143, 262144, 1114111}
ASSUME \A c \in Borders : IsChar(c) /\ Decode(Utf8(c)) = c /\ Len(Utf8(c)) = Utf8Len(c)
ASSUME \A c \in Borders : \A j \in 1..Len(Utf8(c)) :
         Utf8(c)[j] \in 0..255 /\ (Utf8(c)[j] < 128 <=> c < 128)   \* no special byte inside
ASSUME \A c \in Borders : Entity(c) # Utf8(c) <=> c \in Specials

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, ok
Init == k \in 1..Len(Trace) /\ ok = "todo"
Next == ok = "todo" /\ ok' = (IF SweepOk(Trace[k]) THEN "yes" ELSE "no") /\ k' = k
Report == ok = "no" => PrintT(<<"REJ", k>>)
=============================================================================
