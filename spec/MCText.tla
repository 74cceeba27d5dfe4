------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Checks the machine of JsonText against the grammar of RFC8259 on every  *)
(* text that GenText reaches.                                              *)
(***************************************************************************)
EXTENDS GenText
R == INSTANCE RFC8259

Agrees ==
  R!Excepted(txt) \/
  LET r == AtEnd(m)
      d == R!Texts(txt)
  IN IF r[1] = "kOk" THEN d # {} /\ {R!FirstWins(v) : v \in d} = {r[4]}
     ELSE d = {}

\* An error is reported inside the text (or at its end), and on a line that exists
Lines(t)  == Cardinality({i \in 1..Len(t) : t[i] = 10}) + 1
PosOk ==
  LET r == AtEnd(m) IN
  r[1] = "kOk" \/ (/\ r[2] \in 1..Lines(txt)
                   /\ r[3] >= 1
                   /\ (r[2] < m.ln \/ r[3] <= m.co)
                   /\ r[3] <= Len(txt) + 1)

\* A text that is not rejected yet can be completed to a text that is accepted:
\* the reader rejects no text before it has to
Viable == m.mode = "err" \/ (m.mode = "num" /\ m.sub = "bad") \/ AtEnd(Feed(m, Closing(m)))[1] = "kOk"
=============================================================================
