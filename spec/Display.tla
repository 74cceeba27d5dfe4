------------------------------ MODULE Display ------------------------------
(***************************************************************************)
(* The texts that display floats: is a text good for a float?              *)
(***************************************************************************)
EXTENDS Reals, FiniteSets, TLC, Json
CONSTANT File
Recs == ndJsonDeserialize(File)
VARIABLE i

Position(t, set) == LET p == {k \in 1..Len(t) : t[k] \in set} IN IF p = {} THEN 0 ELSE CHOOSE k \in p : \A j \in p : k <= j
AllDigits(t) == t # <<>> /\ \A k \in 1..Len(t) : IsDig(t[k])
Unsigned(t) == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t
\* digits '.' digits [ 'e' ['-'] digits ]
Head2(t) == LET e == Position(t, {101}) IN IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
Exp10(t) == LET e == Position(t, {101}) r == SubSeq(t, e + 1, Len(t)) IN
            IF e = 0 THEN 0 ELSE (IF r[1] = 45 THEN -1 ELSE 1) * FoldLeft(LAMBDA s, b : s * 10 + (b - 48), 0, Unsigned(r))
Shaped(t) == LET m == Head2(t) d == Position(m, {46}) e == Position(t, {101}) IN
  /\ d > 1 /\ AllDigits(SubSeq(m, 1, d - 1)) /\ AllDigits(SubSeq(m, d + 1, Len(m)))
  /\ d > 2 => m[1] # 48
  /\ e > 0 => AllDigits(Unsigned(SubSeq(t, e + 1, Len(t)))) /\ Len(t) - e <= 4
Decimals(t) == LET m == Head2(t) IN Len(m) - Position(m, {46})
\* the mantissa, without the power of ten
Shown(t) == LET m == Head2(t) IN Scaled(1, FromDigits([k \in 1..Len(SelectSeq(m, IsDig)) |-> SelectSeq(m, IsDig)[k] - 48]), 0, Decimals(t))
\* from 1.0e-4 to 1.0e5, as floats
Below(h, g) == \E k \in 1..8 : h[k] < g[k] /\ \A j \in 1..(k - 1) : h[j] = g[j]
Plain(h) == LET a == [h EXCEPT ![1] = @ % 8] IN ~Below(a, <<3, 8, 13, 1, 11, 7, 1, 7>>) /\ Below(a, <<4, 7, 12, 3, 5, 0, 0, 0>>)

Zero3 == <<48, 46, 48>>
Sign3(h, t) == IF Negative(h) THEN <<45>> \o t ELSE t
\* digits are left out after several zeros or nines
Step(t) == Tiny(IF Decimals(t) >= 7 THEN 250000 ELSE IF Decimals(t) = 6 THEN 1200000 ELSE 11000000)
\* how often d is among the first seven decimals of v
Ten7(v) == Whole(Mul(Sub(v, Units(Whole(v))), Units(10000000)))
Often(d, v) == Cardinality({k \in 0..6 : (Ten7(v) \div 10^k) % 10 = d})
\* neither many zeros nor many nines
Ordinary(v) == \A d \in {0, 9} : \A w \in {v, Add(v, Tiny(400000))} \cup (IF Leq(v, Tiny(400000)) THEN {} ELSE {Sub(v, Tiny(400000))}) : Often(d, w) < 4
Close(h, t) ==
  LET p == Exp10(t)
      v == Scaled(1, Spill(Mantissa(h)), Power(h), p)
  IN Near(Shown(t), v, IF Plain(h) THEN IF Ordinary(v) THEN Tiny(250000) ELSE Step(t) ELSE Add(Step(t), Div(Mul(v, Tiny(6000000)), 1)))
Good(h, t) ==
  IF Exponent(h) = 0 THEN t = Zero3
  ELSE IF IsInfinite(h) THEN t = Sign3(h, <<73, 78, 70>>)
  ELSE IF IsNaN(h) THEN t = Sign3(h, <<78, 65, 78>>)
  ELSE /\ Negative(h) <=> (t # <<>> /\ t[1] = 45)
       /\ Shaped(Unsigned(t))
       /\ Plain(h) <=> Position(t, {101}) = 0
       /\ ~Plain(h) => LET s == Shown(Unsigned(t)) IN Leq(Tiny(999970000) , Div(s, 1000)) /\ Leq(s, Add(Units(10), Tiny(60000000)))
       /\ Close(h, Unsigned(t))
\* a text cut off after max characters: in the decimals of a number without a power of ten
CutDecimals(h, t) ==
  (IsFinite(h) /\ Exponent(h) # 0 /\ Plain(h) /\ Position(t, {46}) > 0) =>
    LET u == Unsigned(t) d == Len(u) - Position(u, {46}) IN
    /\ Negative(h) <=> t[1] = 45
    /\ Near(Scaled(1, FromDigits([k \in 1..Len(SelectSeq(u, IsDig)) |-> SelectSeq(u, IsDig)[k] - 48]), 0, d), Mag(Value(h)),
            Add(Tiny(11000000), Scaled(1, <<1>>, 0, d)))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Cut(h, max, t) ==
  /\ Len(t) <= max
  /\ IF Exponent(h) = 0 THEN t = IF max >= 3 THEN Zero3 ELSE IF max >= 1 THEN <<48>> ELSE <<>>
     ELSE IF IsFinite(h)
       THEN Plain(h) => IF Position(t, {46}) > 0 THEN CutDecimals(h, t)
                        ELSE LET w == Sign3(h, Digits(Whole(Mag(Value(h))))) IN t = SubSeq(w, 1, IF max < Len(w) THEN max ELSE Len(w))
     ELSE t = <<>> \/ Good(h, t)

Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", ToJson(<<i, IF Recs[i].cut THEN Cut(Recs[i].bits, Recs[i].max, Recs[i].text) ELSE Good(Recs[i].bits, Recs[i].text)>>)>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
