---------------------------- MODULE Elementary ----------------------------
(***************************************************************************)
(* The elementary functions of floats: is a result near enough?  Functions *)
(* are judged by the sine, the cosine and the exponential of the argument  *)
(* or, for inverse functions, of the result.                               *)
(***************************************************************************)
EXTENDS Reals, TLC, Json
CONSTANT File
Recs == ndJsonDeserialize(File)
VARIABLE i

\* 3 10^-7, and 1.3 10^-7 of the argument
Angular(x) == Add(Tiny(300000), Mul(Mag(x), Tiny(130000)))
Small(n) == Tiny(n * 1000000)       \* n millionths
\* 2^-k times the float
Halved(h, k) == Scaled(Sgn(h), Spill(Mantissa(h)), Power(h) - k, 0)
\* is the float e^x, up to t times e^r?
IsExp(h, x, t) == LET e == ExpSmall(Rest(x)) IN Near(Halved(h, Twos(x)), e, Mul(e, t))
Relative == Tiny(150000)            \* 1.5 parts in ten million
RECURSIVE PowerOf(_, _)
PowerOf(n, k) == IF k = 0 THEN <<1>> ELSE MulAdd(PowerOf(n, k - 1), n, 0)

\* an angle a is that of the direction (x, y), up to t
Direction(a, x, y, t) ==
  LET s == Sine(a) c == Cosine(a)
      along == Add(Mul(x, c), Mul(y, s))
      across == Sub(Mul(y, c), Mul(x, s))
  IN Leq(Nought, along) /\ along.m # <<>> /\ Leq(Mag(across), Add(Mul(along, t), Tiny(1000)))

Good(r) ==
  LET h == r.res x == Value(r.x) y == Value(h) IN
  CASE r.op = "Sin" -> IsFinite(h) /\ Near(y, Sine(x), Angular(x))
    [] r.op = "Cos" -> IsFinite(h) /\ Near(y, Cosine(x), Angular(x))
    [] r.op = "Tan" -> IsFinite(h) /\ LET c == Cosine(x) IN Near(Mul(Mul(y, c), c), Mul(Sine(x), c), Add(Tiny(300000), Angular(x)))
    [] r.op = "Arcsin" -> IsFinite(h) /\ Leq(Mag(y), Add(Div(Pi, 2), Small(1))) /\ Leq(Nought, Cosine(Sub(Mag(y), Small(5))))
                          /\ Leq(Mag(y), Add(Div(Pi, 2), Small(1)))
                          \* between the sines of the result a little less and a little more
                          /\ LET lo == Sub(y, Small(5)) hi == Add(y, Small(5)) IN
                             /\ Leq(lo, Minus(Div(Pi, 2))) \/ Leq(Sine(lo), x)
                             /\ Leq(Div(Pi, 2), hi) \/ Leq(x, Sine(hi))
    [] r.op = "Arccos" -> IsFinite(h) /\ Leq(Minus(Small(1)), y) /\ Leq(y, Add(Pi, Small(1)))
                          /\ LET lo == Sub(y, Small(5)) hi == Add(y, Small(5)) IN
                             /\ Leq(lo, Nought) \/ Leq(x, Cosine(lo))
                             /\ Leq(Pi, hi) \/ Leq(Cosine(hi), x)
    [] r.op = "Arctan" -> IsFinite(h) /\ Leq(Mag(y), Add(Div(Pi, 2), Small(1))) /\ Direction(y, Units(1), x, Tiny(500000))
    [] r.op = "Arctan2" -> IsFinite(h) /\ Leq(Mag(y), Add(Pi, Small(1))) /\ Direction(y, Value(r.x2), x, Tiny(700000))
    [] r.op = "Exp" -> IsFinite(h) /\ ~Negative(h) /\ IsExp(h, x, Tiny(600000))
    [] r.op = "Log" -> IsFinite(h) /\ IsExp(r.x, y, Add(Tiny(300000), Mul(Mag(y), Tiny(150000))))
    \* the base is r.n / 16, the power r.k
    [] r.op = "Pow" -> /\ IsFinite(h) /\ ~Negative(h)
                       /\ IF r.k >= 0 THEN LET b == Num(1, <<0, 0, 0>> \o PowerOf(r.n, r.k)) IN Near(Halved(h, -4 * r.k), b, Mul(b, Small(10)))
                          ELSE Near(Scaled(1, MulBig(Spill(Mantissa(h)), PowerOf(r.n, -r.k)), Power(h) + 4 * r.k, 0), Units(1), Small(10))
    \* constants: n/k of pi, k/n over pi, roots, logarithms, the limits of floats
    [] r.op = "PiTimes" -> LET e == Div(Mul(Pi, Units(r.n)), r.k) IN Near(y, e, Mul(e, Relative))
    [] r.op = "OverPi" -> Near(Mul(Mul(y, Units(r.k)), Pi), Units(r.n), Mul(Units(r.n), Relative))
    [] r.op = "Root" -> ~Negative(h) /\ Near(Mul(Mul(y, y), Units(r.k * r.k)), Units(r.n), Mul(Units(r.n), Add(Relative, Relative)))
    [] r.op = "LogOf" -> LET e == ExpSmall(Rest(y)) k == Twos(y) IN k >= 0 /\ Near(Mul(e, Units(2^k)), Units(r.n), Mul(Mul(Units(r.n), y), Relative))
    [] r.op = "OverLog" -> Near(Mul(y, Value(r.x)), Units(1), Add(Relative, Relative))
    [] r.op = "Least" -> Exponent(h) = 1 /\ Fraction(h) = 0 /\ ~Negative(h)
    [] r.op = "Greatest" -> Exponent(h) = 254 /\ Fraction(h) = 8388607 /\ ~Negative(h)
    [] r.op = "Infinite" -> IsInfinite(h) /\ ~Negative(h)
    [] r.op = "MinusInfinite" -> IsInfinite(h) /\ Negative(h)
    [] r.op = "NaN" -> IsNaN(h)
    [] r.op = "Zero" -> y = Nought

Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", ToJson(<<i, Good(Recs[i])>>)>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i

(* the series satisfy the laws of the functions *)
Grid == [k \in 1..40 |-> Scaled(IF k % 2 = 0 THEN 1 ELSE -1, Spill(k * k * 7 + k), 0, 2)]
Epsilon == Tiny(200)
ASSUME \A k \in DOMAIN Grid : LET x == Grid[k] s == Sine(x) c == Cosine(x) IN
  /\ Near(Add(Mul(s, s), Mul(c, c)), Units(1), Epsilon)
  /\ Near(Sine(Add(x, x)), Mul(Add(s, s), c), Epsilon)
  /\ Near(Cosine(Sub(x, Div(Pi, 2))), s, Epsilon)
  /\ Near(Sine(Minus(x)), Minus(s), Epsilon)
ASSUME \A k \in 1..20 : LET x == Div(Grid[k], 20) IN Near(Mul(ExpSmall(Rest(x)), ExpSmall(Rest(Minus(x)))), Units(1), Epsilon)
ASSUME Near(ExpSmall(Units(1)), Num(1, <<8459, 8182, 7182, 2>>), Epsilon)
=============================================================================
