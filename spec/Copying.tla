------------------------------ MODULE Copying ------------------------------
\* C26. A piece of memory, and the operations of the library that fill, clear, copy, measure and look at parts of it.
\* Places count from 0. What an operation does not name stays as it is; operations that copy get parts that do not overlap.
EXTENDS Naturals, Integers, Sequences, TLC, Json, Sampling
CONSTANTS Size,       \* bytes of memory
          Fillings,   \* what it may hold at first: sequences of bytes that repeat
          Values,     \* bytes to fill with
          Lens,       \* sizes of parts
          Maxes,      \* limits of copied texts
          Coarse,     \* whether a byte here stands for many equal ones there: texts must then end where a zero is
          Depth
VARIABLES mem, hist, outs
vars == <<mem, hist, outs>>
Places == 0..(Size - 1)
At(m, p) == m[p + 1]
\* the text at p: whether there is one within the memory, and its length
Ends(m, p) == {e \in p..(Size - 1) : At(m, e) = 0}
Text(m, p) == Ends(m, p) /= {}
Length(m, p) == (CHOOSE e \in Ends(m, p) : \A f \in Ends(m, p) : e <= f) - p
Part(m, p, n) == SubSeq(m, p + 1, p + n)
Put(m, p, s) == [i \in 1..Size |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE m[i]]
Apart(p, n, q, k) == p + n <= q \/ q + k <= p
Fits(p, n) == p + n <= Size
Digit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
\* how many bytes a limited copy takes from p: up to the end of the text, or the limit
Least(x, y) == IF x < y THEN x ELSE y
Taken(m, p, max) == IF max <= 0 THEN 0 ELSE IF Text(m, p) THEN Least(max, Length(m, p)) ELSE max
\* what it looks at
Looked(m, p, max) == IF max <= 0 THEN 0 ELSE Least(max, Taken(m, p, max) + 1)

EndsAtZero(m, p) == Coarse => p < Size /\ At(m, p) = 0

\* an operation is <<name, from, to, n>>
Possible(m, op) ==
  LET f == op[2]  t == op[3]  n == op[4] IN
  CASE op[1] = "copy" -> Fits(f, n) /\ Fits(t, n) /\ Apart(f, n, t, n)
    [] op[1] = "fill" -> Fits(t, n)
    [] op[1] = "clear" -> Fits(t, n)
    [] op[1] = "text" -> Text(m, f) /\ LET k == Length(m, f) + 1 IN Fits(t, k) /\ Apart(f, k, t, k) /\ EndsAtZero(m, t + k - 1)
    [] op[1] = "most" -> LET k == Taken(m, f, n) IN Fits(f, Looked(m, f, n)) /\ Fits(t, k + 1) /\ Apart(f, Looked(m, f, n), t, k + 1) /\ EndsAtZero(m, t + k)
    [] op[1] = "length" -> Text(m, f)
    [] op[1] \in {"float", "int", "uint", "ufloat"} -> Fits(f, 4) /\ Fits(t, 4) /\ f % 4 = 0 /\ t % 4 = 0
    [] op[1] = "digits" -> Fits(f, 1) /\ Fits(t, 2) /\ Apart(f, 1, t, 2)
    [] op[1] = "apart" -> TRUE
\* <<result, memory>>
Do(m, op) ==
  LET f == op[2]  t == op[3]  n == op[4] IN
  CASE op[1] = "copy" -> <<0, Put(m, t, Part(m, f, n))>>
    [] op[1] = "fill" -> <<0, Put(m, t, [i \in 1..n |-> f])>>
    [] op[1] = "clear" -> <<0, Put(m, t, [i \in 1..n |-> 0])>>
    [] op[1] = "text" -> LET k == Length(m, f) IN <<k, Put(m, t, Part(m, f, k + 1))>>
    [] op[1] = "most" -> LET k == Taken(m, f, n) IN <<k, Put(m, t, Append(Part(m, f, k), 0))>>
    [] op[1] = "length" -> <<Length(m, f), m>>
    [] op[1] \in {"float", "int", "uint", "ufloat"} -> <<0, Put(m, t, Part(m, f, 4))>>      \* the same bits, looked at as another type
    [] op[1] = "digits" -> <<0, Put(m, t, <<Digit(At(m, f) \div 16), Digit(At(m, f) % 16)>>)>>
    [] op[1] = "apart" -> <<t - f, m>>      \* the distance of two addresses
Names == {"copy", "fill", "clear", "text", "most", "length", "apart"} \cup IF Coarse THEN {} ELSE {"float", "int", "uint", "ufloat", "digits"}
Args(name) ==
  CASE name = "copy" -> AFew(Places) \X AFew(Places) \X AFew(Lens)
    [] name = "fill" -> AFew(Values) \X AFew(Places) \X AFew(Lens)
    [] name = "clear" -> {0} \X AFew(Places) \X AFew(Lens)
    [] name = "most" -> AFew(Places) \X AFew(Places) \X AFew(Maxes)
    [] name = "length" -> AFew(Places) \X {0} \X {0}
    [] name \in {"float", "int", "uint", "ufloat"} -> LET q == {p \in Places : p % 4 = 0} IN AFew(q) \X AFew(q) \X {0}
    [] OTHER -> AFew(Places) \X AFew(Places) \X {0}
Init == \E s \in Fillings : mem = [i \in 1..Size |-> s[((i - 1) % Len(s)) + 1]] /\ hist = <<>> /\ outs = <<mem>>
Step(op) == Possible(mem, op) /\ LET r == Do(mem, op) IN mem' = r[2] /\ hist' = Append(hist, op) /\ outs' = Append(outs, <<r[1], r[2]>>)
Next == Len(hist) < Depth /\ \E name \in AFew(Names) : \E x \in Args(name) : Step(<<name, x[1], x[2], x[3]>>)
Spec == Init /\ [][Next]_vars

\* laws
Target(op) == CASE op[1] \in {"copy", "fill", "clear"} -> op[4] [] op[1] \in {"text", "most"} -> outs[Len(outs)][1] + 1
                [] op[1] \in {"length", "apart"} -> 0 [] op[1] = "digits" -> 2 [] OTHER -> 4
Before == IF Len(outs) = 2 THEN outs[1] ELSE outs[Len(outs) - 1][2]
Laws == hist /= <<>> =>
  LET op == hist[Len(hist)]  t == op[3]  n == Target(op) IN
  /\ \A p \in Places : (p < t \/ p >= t + n) => At(mem, p) = At(Before, p)
  /\ op[1] \in {"text", "most"} => Text(mem, t) /\ Length(mem, t) = n - 1
  /\ op[1] = "text" => \A x \in {n - 1, n, n + 3} : Do(Before, <<"most", op[2], t, x>>)[2] = mem
  /\ op[1] \in {"float", "int", "uint", "ufloat"} => Part(mem, t, n) = Part(Before, op[2], n)
  /\ op[1] \in {"copy", "text"} => Do(mem, op)[2] = mem /\ Part(mem, t, n) = Part(mem, op[2], n)
Bytes == \A p \in Places : At(mem, p) \in 0..255
Emitted == Len(hist) = Depth => PrintT(<<"V", ToJson(<<hist, outs>>)>>)
=============================================================================
