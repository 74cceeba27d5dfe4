------------------------------- MODULE Reals -------------------------------
(***************************************************************************)
(* Real numbers with twelve decimals: a sign and limbs of four decimal     *)
(* digits, least significant first (TLC's integers have 32 bits).          *)
(* Elementary functions by their series.                                   *)
(***************************************************************************)
EXTENDS Decimal

RECURSIVE Strip(_)
Strip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
Limb(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
SubBig(a, b) ==     \* a >= b
  Strip(FoldLeft(LAMBDA s, i : LET t == a[i] - Limb(b, i) - s.c IN [r |-> Append(s.r, IF t < 0 THEN t + 10000 ELSE t), c |-> IF t < 0 THEN 1 ELSE 0],
                 [r |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i]).r)
MulBig(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE
  LET Column(k) == FoldLeft(LAMBDA s, i : s + Limb(a, i) * Limb(b, k + 1 - i), 0, [i \in 1..Len(a) |-> i])
      f == FoldLeft(LAMBDA s, k : LET t == Column(k) + s.c IN [r |-> Append(s.r, t % 10000), c |-> t \div 10000], [r |-> <<>>, c |-> 0],
                    [k \in 1..(Len(a) + Len(b)) |-> k])
  IN Strip(f.r)
DivSmall(a, k) ==
  LET f == FoldLeft(LAMBDA s, i : LET t == s.c * 10000 + a[Len(a) + 1 - i] IN [r |-> Append(s.r, t \div k), c |-> t % k], [r |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i])
  IN Strip(Reverse(f.r))
SumBig(a, b) == IF Len(a) >= Len(b) THEN AddBig(a, b) ELSE AddBig(b, a)

\* --- signed, with twelve decimals
Num(s, m) == [s |-> IF m = <<>> THEN 1 ELSE s, m |-> m]
Nought == Num(1, <<>>)
Units(n) == IF n < 0 THEN Num(-1, <<0, 0, 0>> \o Spill(-n)) ELSE IF n = 0 THEN Nought ELSE Num(1, <<0, 0, 0>> \o Spill(n))
\* n of 10^-12
Tiny(n) == Num(1, Spill(n))
Minus(a) == Num(-a.s, a.m)
Add(a, b) == IF a.s = b.s THEN Num(a.s, SumBig(a.m, b.m))
             ELSE LET c == Cmp(a.m, b.m) IN IF c = 0 THEN Nought ELSE IF c > 0 THEN Num(a.s, SubBig(a.m, b.m)) ELSE Num(b.s, SubBig(b.m, a.m))
Sub(a, b) == Add(a, Minus(b))
Drop(m) == IF Len(m) <= 3 THEN <<>> ELSE SubSeq(m, 4, Len(m))
Mul(a, b) == Num(a.s * b.s, Drop(MulBig(a.m, b.m)))
Div(a, k) == Num(a.s, DivSmall(a.m, k))
Leq(a, b) == IF a.s # b.s THEN a.s < b.s ELSE a.s * Cmp(a.m, b.m) <= 0
Mag(a) == Num(1, a.m)
Near(a, b, t) == Leq(Mag(Sub(a, b)), t)

\* the terms f, f * x * z / (k (k+1)), ...
RECURSIVE Terms(_, _, _, _)
Terms(t, z, k, sum) == IF t.m = <<>> THEN sum ELSE LET n == Div(Mul(t, z), k * (k + 1)) IN Terms(n, z, k + 2, Add(sum, n))
Tau24 == <<5287, 7692, 5864, 7179, 8530, 2831, 6>>          \* twenty-four decimals
Pi == Num(1, <<3590, 9265, 1415, 3>>)
Ln2x24 == <<7232, 941, 9453, 559, 4718, 6931>>
OverTau == Num(1, <<3092, 5494, 1591>>)
OverLn2 == Num(1, <<889, 9504, 4426, 1>>)
Whole(a) == LET w == Drop(a.m) IN FoldLeft(LAMBDA s, i : s * 10000 + w[Len(w) + 1 - i], 0, [i \in 1..Len(w) |-> i])
\* k times a number with twenty-four decimals, k below 10^4
Multiple(c, k) == Num(1, Drop(MulAdd(c, k, 0)))
\* x minus the multiple of tau nearest to it
Reduce(x) == LET k == Whole(Mul(Add(Mag(x), Pi), OverTau)) IN IF k = 0 THEN x ELSE Sub(x, Num(x.s, Multiple(Tau24, k).m))
Sine(x) == LET r == Reduce(x) IN Terms(r, Minus(Mul(r, r)), 2, r)
Cosine(x) == LET r == Reduce(x) IN Terms(Units(1), Minus(Mul(r, r)), 1, Units(1))
\* e^x = 2^k e^r with k = Twos(x), r = Rest(x) of the sign of x, below ln 2
Twos(x) == x.s * Whole(Mul(Mag(x), OverLn2))
Rest(x) == LET k == Twos(x) IN IF k = 0 THEN x ELSE Sub(x, Num(x.s, Multiple(Ln2x24, IF k < 0 THEN -k ELSE k).m))
RECURSIVE Powers(_, _, _, _)
Powers(t, x, k, sum) == IF t.m = <<>> THEN sum ELSE LET n == Div(Mul(t, x), k) IN Powers(n, x, k + 1, Add(sum, n))
ExpSmall(x) == Powers(Units(1), x, 1, Units(1))

\* --- floats, as eight hexadecimal digits
RECURSIVE DivPow2(_, _)
DivPow2(a, n) == IF n = 0 \/ a = <<>> THEN a ELSE IF n >= 13 THEN DivPow2(DivSmall(a, 8192), n - 13) ELSE DivSmall(a, 2^n)
RECURSIVE DivPow10(_, _)
DivPow10(a, n) == IF n = 0 \/ a = <<>> THEN a ELSE IF n >= 4 THEN DivPow10(Tail(a), n - 4) ELSE DivSmall(a, 10^n)
Negative(h) == h[1] >= 8
Exponent(h) == (h[1] % 8) * 32 + h[2] * 2 + h[3] \div 8
Fraction(h) == FoldLeft(LAMBDA s, d : s * 16 + d, h[3] % 8, SubSeq(h, 4, 8))
IsNaN(h) == Exponent(h) = 255 /\ Fraction(h) # 0
IsInfinite(h) == Exponent(h) = 255 /\ Fraction(h) = 0
IsFinite(h) == Exponent(h) # 255
\* value = sign * Mantissa * 2^Power
Mantissa(h) == IF Exponent(h) = 0 THEN Fraction(h) ELSE Fraction(h) + 8388608
Power(h) == (IF Exponent(h) = 0 THEN 1 ELSE Exponent(h)) - 150
Sgn(h) == IF Negative(h) THEN -1 ELSE 1
\* big * 2^q / 10^p with twelve decimals
Scaled(s, big, q, p) ==
  LET a == IF q > 0 THEN MulPow2(big, q) ELSE big
      b == IF p < 12 THEN MulPow10(a, 12 - p) ELSE a
      c == IF q < 0 THEN DivPow2(b, -q) ELSE b
  IN Num(s, Strip(IF p > 12 THEN DivPow10(c, p - 12) ELSE c))
Value(h) == Scaled(Sgn(h), Spill(Mantissa(h)), Power(h), 0)
=============================================================================
