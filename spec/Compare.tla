------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* Orders and searches of texts. A text is a sequence of bytes without 0.  *)
(* One state is a pair of texts; steps make them longer.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Starts,    \* pairs of texts to begin with
          Letters, MaxFirst, MaxSecond, Total, Grow, Limits, Needles
VARIABLES s, t, added      \* added counts the letters added
vars == <<s, t, added>>

Least(a, b) == IF a < b THEN a ELSE b
Cut(x, n) == SubSeq(x, 1, Least(Len(x), n))
Fold(c) == IF c \in 97..122 THEN c - 32 ELSE c
Folded(x) == [i \in 1..Len(x) |-> Fold(x[i])]
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
LessEqual(a, b) == ~Less(b, a)

\* a text as letters and numbers; a number is <<its digits without leading zeros, count of digits>>
Digit(c) == c \in 48..57
RECURSIVE Run(_)
Run(x) == IF x # <<>> /\ Digit(x[1]) THEN 1 + Run(Tail(x)) ELSE 0
RECURSIVE Strip(_)
Strip(x) == IF x # <<>> /\ x[1] = 48 THEN Strip(Tail(x)) ELSE x
RECURSIVE Parts(_)
Parts(x) == IF x = <<>> THEN <<>> ELSE IF Run(x) = 0 THEN <<<<x[1]>>>> \o Parts(Tail(x))
            ELSE <<<<x[1], Strip(Cut(x, Run(x))), Run(x)>>>> \o Parts(SubSeq(x, Run(x) + 1, Len(x)))
\* numbers compare by value and then by length, everything else by its first byte
Before(p, q) == IF Len(p) = 3 /\ Len(q) = 3
                THEN IF p[2] = q[2] THEN p[3] < q[3] ELSE IF Len(p[2]) # Len(q[2]) THEN Len(p[2]) < Len(q[2]) ELSE Less(p[2], q[2])
                ELSE p[1] < q[1]
RECURSIVE NumberedParts(_, _)
NumberedParts(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN Before(a[1], b[1]) ELSE NumberedParts(Tail(a), Tail(b))
Numbered(a, b) == NumberedParts(Parts(a), Parts(b))

Occurs(a, b, i) == i + Len(b) - 1 <= Len(a) /\ SubSeq(a, i, i + Len(b) - 1) = b
First(P(_), n) == IF \E i \in 1..n : P(i) THEN (CHOOSE i \in 1..n : P(i) /\ \A j \in 1..i - 1 : ~P(j)) - 1 ELSE -1
LastOf(P(_), n) == IF \E i \in 1..n : P(i) THEN CHOOSE i \in 1..n : P(i) /\ \A j \in i + 1..n : ~P(j) ELSE 0
FindText(a, b) == First(LAMBDA i : Occurs(a, b, i), Len(a))
FindChar(a, k) == First(LAMBDA i : a[i] = k, Len(a))
Count(a, k) == Cardinality({i \in 1..Len(a) : a[i] = k})
\* places outside of quotes; a backslash inside of them keeps the next quote from ending them
RECURSIVE Outside(_, _, _)
Outside(a, i, q) ==
  IF i > Len(a) THEN {}
  ELSE CASE q = "out" -> IF a[i] = 34 THEN Outside(a, i + 1, "in") ELSE {i} \cup Outside(a, i + 1, "out")
         [] q = "in" -> Outside(a, i + 1, IF a[i] = 34 THEN "out" ELSE IF a[i] = 92 THEN "esc" ELSE "in")
         [] q = "esc" -> Outside(a, i + 1, "in")
FindUnquoted(a, k) == LET o == Outside(a, 1, "out") IN First(LAMBDA i : a[i] = k /\ i \in o, Len(a))
ResourceName(a) == LET dot == LastOf(LAMBDA i : a[i] = 46, Len(a)) slash == LastOf(LAMBDA i : a[i] = 47, Len(a)) IN IF dot > slash THEN dot - 1 ELSE Len(a)
Directory(a) == LastOf(LAMBDA i : a[i] = 47, Len(a))
Prefix(a) == FindChar(a, 47) + 1

Bit(b) == IF b THEN 1 ELSE 0
Relations(a, b) == LET f == Folded(a) g == Folded(b) IN
  <<Bit(a = b), Bit(f = g), Bit(Less(a, b)), Bit(Less(f, g)), Bit(LessEqual(a, b)), Bit(LessEqual(f, g)), Bit(Numbered(a, b)), Bit(Numbered(f, g))>>
Limited(a, b, m) == SubSeq(Relations(Cut(a, m), Cut(b, m)), 1, 6)
Search(a) == <<[k \in 1..Len(Needles) |-> <<FindChar(a, Needles[k]), FindUnquoted(a, Needles[k]), [m \in 1..Len(Limits) |-> <<FindChar(Cut(a, Limits[m]), Needles[k]), Count(Cut(a, Limits[m]), Needles[k])>>]>>],
               ResourceName(a), Directory(a), Prefix(a)>>

Init == (\E p \in Starts : s = p[1] /\ t = p[2]) /\ added = 0
Next == /\ added' = added + 1 /\ (Grow > 0 => added < Grow)
        /\ Len(s) + Len(t) < Total
        /\ \/ Len(s) < MaxFirst /\ \E c \in Letters : s' = Append(s, c) /\ t' = t
           \/ Len(t) < MaxSecond /\ \E c \in Letters : t' = Append(t, c) /\ s' = s
Spec == Init /\ [][Next]_vars

\* the orders are orders, and agree with each other
Laws == /\ Bit(Less(s, t)) + Bit(s = t) + Bit(Less(t, s)) = 1
        /\ Bit(Numbered(s, t)) + Bit(s = t) + Bit(Numbered(t, s)) = 1
        /\ LET f == Folded(s) g == Folded(t) IN Bit(Less(f, g)) + Bit(f = g) + Bit(Less(g, f)) = 1 /\ (s = t => f = g)
        /\ t # <<>> => (FindText(s, t) >= 0 <=> \E i \in 1..Len(s) : Occurs(s, t, i))
        /\ ResourceName(s) >= Directory(s) /\ Prefix(s) <= Directory(s)
\* the longer text is cut into every third one
Transitive == \A i \in 0..Len(t) : LET u == SubSeq(t, i + 1, Len(t)) \o SubSeq(t, 1, i) IN
                /\ Less(s, t) /\ Less(t, u) => Less(s, u)
                /\ Numbered(s, t) /\ Numbered(t, u) => Numbered(s, u)
Emitted == PrintT(<<"V", ToJson(<<s, t, Relations(s, t), [m \in 1..Len(Limits) |-> Limited(s, t, Limits[m])],
                                  IF t = <<>> THEN <<>> ELSE <<FindText(s, t), FindText(Folded(s), Folded(t))>>, IF t = <<>> THEN Search(s) ELSE <<>>>>)>>)
=============================================================================
