----------------------------- MODULE LongTexts -----------------------------
\* Texts in which one part is repeated very often. The results of all functions on texts grow evenly with the number of
\* repetitions (a law that TLC checks for few of them), which says what they are for any number.
\* s is the part that is repeated, t is <<what follows in the first text, in the second, how much oftener it is repeated there>>
EXTENDS Compare
CONSTANTS Parts0,     \* parts that are repeated: sequences of characters
          Ends0       \* what may follow
U == INSTANCE Unicode
Rep(x, n) == [i \in 1..n * Len(x) |-> x[((i - 1) % Len(x)) + 1]]
InitLong == s \in Parts0 /\ t \in Ends0 \X Ends0 \X {0, 1} /\ added = 0
NextLong == FALSE /\ UNCHANGED vars
SpecLong == InitLong /\ [][NextLong]_vars

A(n) == U!Encode(Rep(s, n) \o t[1])
B(n) == U!Encode(Rep(s, n + t[3]) \o t[2])
Chars(n) == Rep(s, n) \o t[1]
Size == Len(U!Encode(s))
Beyond == <<0, 1, 2>>
Flat(x) == FoldLeft(LAMBDA a, b : a \o b, <<>>, x)
Fits(x, parts, max) == Len(U!Fitting(parts, max))
Row(n) ==
  LET a == A(n)  b == B(n)  c == Chars(n)  f == Folded(a)
      e == U!Encode(t[2])
      at == U!Begins(c)
      units == [i \in 1..Len(c) |-> U!Units(c[i])]
      encs == [i \in 1..Len(c) |-> U!Enc(c[i])]
      w == U!Wide(c)
      ws == Len(U!Wide(s))
  IN Relations(a, b)
     \o Flat([j \in 1..3 |-> Limited(a, b, n * Size + Beyond[j])])
     \o (IF e = <<>> THEN <<-1, -1>> ELSE <<FindText(a, e), FindText(f, Folded(e))>>)
     \o Flat([k \in 1..Len(Needles) |-> <<FindChar(a, Needles[k]), FindUnquoted(a, Needles[k])>>
             \o Flat([j \in 1..3 |-> LET x == Cut(a, n * Size + Beyond[j]) IN <<FindChar(x, Needles[k]), Count(x, Needles[k])>>])])
     \o <<ResourceName(a), Directory(a), Prefix(a)>>
     \o <<Len(a), Len(c), Len(w), Len(a)>>
     \o Flat([j \in 1..3 |-> <<Cardinality({i \in 1..Len(c) : at[i] < n * Size + Beyond[j]}), at[Least(n * Len(s) + Beyond[j], Len(c)) + 1],
                               Len(U!Fitting(units, n * ws + Beyond[j])), Len(U!Fitting(encs, n * Size + Beyond[j]))>>])
Minus(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] - y[i]])
Tell(x, y, z) == Minus(y, x) = Minus(z, y)
                 /\ PrintT(<<"V", ToJson(<<U!Encode(s), U!Encode(t[1]), U!Encode(t[2]), t[3], U!Wide(s), U!Wide(t[1]), Len(s), x, Minus(y, x)>>)>>)
Evenly == LET x == TLCEval(Row(3))  y == TLCEval(Row(4))  z == TLCEval(Row(5)) IN Tell(x, y, z)
=============================================================================
