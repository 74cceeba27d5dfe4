------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* Two strings as sequences of bytes. Cap is the size of a fixed string,   *)
(* -1 for strings without a limit. An operation is <<name, string, x, k>>; *)
(* texts are Pat(x, k), numbers Ints[x].                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Sampling
CONSTANTS Cap,      \* size of the strings
          Pairs,    \* lengths of the two strings a history starts with
          Lens,     \* lengths of texts
          Ks,       \* limits on texts, in units of 7 bytes
          Table,    \* the bytes of texts
          Ints,     \* decimal digits of numbers, <<type, digits>>; type 3 are floating-point
          Wide,     \* texts of 16-bit units with their UTF-8 bytes, <<units, bytes>>
          Ops,      \* operations used
          Both,     \* strings operated on
          Room,     \* total length from which strings only shrink
          Depth

Pat(n, k) == [i \in 1..n |-> Table[((i + 5 * k) % Len(Table)) + 1]]
Fit(s) == IF Cap >= 0 /\ Len(s) > Cap THEN SubSeq(s, 1, Cap) ELSE s
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Fill(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 102]
SetLen(s, n) == IF n <= Len(s) THEN Take(s, n) ELSE s \o Fill(n - Len(s))
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Escape(c) ==
  CASE c \in 7..13 -> <<92, <<97, 98, 116, 110, 118, 102, 114>>[c - 6]>>
    [] c \in {34, 92} -> <<92, c>>
    [] c < 32 \/ c = 127 -> <<92, 120, Hex(c \div 16), Hex(c % 16)>>
    [] OTHER -> <<c>>
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Escaped(s) == FoldLeft(LAMBDA r, c : r \o Escape(c), <<>>, s)
Rep(s, x, y) == [i \in 1..Len(s) |-> IF s[i] = x THEN y ELSE s[i]]

RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i + 1)

\* the two strings afterwards
Do(op, s) ==
  LET m == op[2]
      o == 3 - m
      me == s[m]
      x == op[3]
      put(t) == [s EXCEPT ![m] = Fit(t)]
  IN CASE op[1] \in {"new", "asg"} -> put(Pat(x, op[4]))
       [] op[1] \in {"newn", "set"} -> put(Take(Pat(x, op[4]), op[4] * 7))     \* at most 7 k bytes of a text of x bytes
       [] op[1] = "newc" -> put(IF op[4] = 0 THEN <<x>> ELSE <<x, 10, x>>)
       [] op[1] = "fresh" -> put(<<>>)
       [] op[1] = "neww" -> put(Wide[x][2])
       [] op[1] \in {"newint", "asgint"} -> put(Ints[x][2])
       [] op[1] = "appint" -> put(me \o Ints[x][2])
       [] op[1] = "plusint" -> put(s[o] \o Ints[x][2])
       [] op[1] \in {"copyc", "assign"} -> put(s[o])
       [] op[1] \in {"movec", "movea"} -> [s EXCEPT ![m] = s[o], ![o] = <<>>]
       [] op[1] = "moveapp" -> [s EXCEPT ![m] = s[o], ![o] = Pat(x, op[4])]      \* what was moved from is empty and is appended to
       [] op[1] \in {"self", "moveself", "selfsub"} -> s
       [] op[1] = "app" -> put(me \o Pat(x, op[4]))
       [] op[1] = "appn" -> put(me \o Take(Pat(x, op[4]), op[4] * 7))
       [] op[1] = "apps" -> put(me \o s[o])
       [] op[1] = "appself" -> put(me \o me)
       [] op[1] = "appc" -> put(Append(me, x))
       [] op[1] = "plus" -> put(s[o] \o Pat(x, op[4]))
       [] op[1] = "pluss" -> put(me \o s[o])
       [] op[1] = "len" -> put(IF Cap >= 0 THEN Take(me, x) ELSE SetLen(me, x))
       [] op[1] = "purge" -> put(<<>>)
       [] op[1] = "lower" -> put(Map(Lower, me))
       [] op[1] = "upper" -> put(Map(Upper, me))
       [] op[1] = "rep" -> put(Rep(me, x, op[4]))
       [] op[1] = "esc" -> put(Escaped(me))

VARIABLES s, hist, outs
vars == <<s, hist, outs>>
L(m) == Len(s[m])
\* lengths set on a string: those where its storage changes, and near the present one
Around(m) == (Lens \cup {L(m) - 1, L(m), L(m) + 1, L(m) \div 2, L(m) \div 2 - 1, L(m) * 2}) \cap 0..Room
Args(name, m) ==
  CASE name \in {"new", "asg", "app", "plus", "moveapp"} -> {<<x, k>> : x \in Lens, k \in {0, 1}}
    [] name \in {"newn", "set", "appn"} -> {<<x, k>> : x \in Lens, k \in Ks}
    [] name = "neww" -> {<<x, 0>> : x \in 1..Len(Wide)}
    [] name \in {"newint", "asgint", "appint", "plusint"} -> {<<x, 0>> : x \in {i \in 1..Len(Ints) : Ints[i][1] # 3 \/ (name \in {"newint", "asgint"} /\ ~Cap \in 0..14)}}
    [] name = "newc" -> IF Len(hist) > 2 THEN {} ELSE {<<x, k>> : x \in 1..255, k \in {0, 1}}
    [] name = "appc" -> {<<x, 0>> : x \in {65, 255}}
    [] name = "len" -> {<<x, 0>> : x \in Around(m)}
    [] name = "rep" -> {<<65, 90>>, <<255, 1>>}
    [] OTHER -> {<<0, 0>>}
Hash(t) == FoldLeft(LAMBDA h, c : (h * 31 + c) % 1000003, 7, t)
Out(t) == <<Len(t[1]), Hash(t[1]), Len(t[2]), Hash(t[2]), IF t[1] = t[2] THEN 0 ELSE IF Less(t[1], t[2], 1) THEN -1 ELSE 1>>
Step(op) == LET r == Do(op, s) IN s' = r /\ hist' = Append(hist, op) /\ outs' = Append(outs, Out(r))
Init == \E p \in Pairs :
          /\ s = <<Fit(Pat(p[1], 0)), Fit(Pat(p[2], p[3]))>>
          /\ hist = <<<<"new", 1, p[1], 0>>, <<"new", 2, p[2], p[3]>>>>
          /\ outs = <<Out(<<Fit(Pat(p[1], 0)), <<>>>>), Out(s)>>
Next == /\ Len(hist) < Depth + 2
        /\ \E name \in AFew(Ops), m \in Both : \E x \in AFew(Args(name, m)) : (L(1) + L(2) < Room \/ name \in {"len", "purge", "new", "asg"}) /\ Step(<<name, m, x[1], x[2]>>)
Spec == Init /\ [][Next]_vars
Bounded == Cap >= 0 => L(1) <= Cap /\ L(2) <= Cap
Ordered == (Less(s[1], s[2], 1) \/ Less(s[2], s[1], 1)) = (s[1] # s[2]) /\ ~(Less(s[1], s[2], 1) /\ Less(s[2], s[1], 1))
Emitted == Len(hist) = Depth + 2 => PrintT(<<"V", ToJson(<<hist, outs>>)>>)
=============================================================================
