------------------------------ MODULE GenText ------------------------------
(***************************************************************************)
(* Enumerates texts: all sequences of up to MaxChunks chunks of an         *)
(* alphabet after one of the given openings. A text that has to be         *)
(* rejected is extended by at most Slack chunks more.                      *)
(* Every text reached is printed with the report that the reader has to    *)
(* give; and so is the text completed as if its offending chunk were not   *)
(* there, since a reader that misses an error accepts that one.            *)
(***************************************************************************)
EXTENDS JsonText, FiniteSets, TLC, Json

CONSTANTS Openings, Chunks, MaxChunks, Slack, Emit

VARIABLES txt,      \* the text
          m,        \* the reader after it
          g,        \* the reader after the text without its offending chunks
          n, e      \* chunks added, chunks added since the text was rejected
vars == <<txt, m, g, n, e>>

Init == /\ \E o \in Openings : txt = o /\ m = Feed(M0, o)
        /\ g = (IF m.mode = "err" THEN M0 ELSE m)
        /\ n = 0 /\ e = 0
Doomed(mm) == mm.mode = "err" \/ (mm.mode = "num" /\ mm.sub = "bad")
Next == /\ n < MaxChunks
        /\ Doomed(m) => e < Slack
        /\ \E c \in Chunks :
             /\ txt' = txt \o c
             /\ m' = Feed(m, c)
             /\ n' = n + 1
             /\ e' = IF Doomed(m) THEN e + 1 ELSE 0
             /\ g' = LET h == Feed(g, c) IN IF h.mode = "err" THEN g ELSE h
Spec == Init /\ [][Next]_vars

\* an emission per state reached; always true
Show(t, r) == PrintT(<<"V", ToJson(<<t, r>>)>>)
Emitted ==
  Emit => /\ Show(txt, IF txt = <<>> THEN ReadBuffer(<<0>>) ELSE AtEnd(m))
          /\ LET c == Closing(g) IN c # <<>> => Show(txt \o c, AtEnd(Feed(m, c)))
=============================================================================
