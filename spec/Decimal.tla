------------------------------- MODULE Decimal -------------------------------
(***************************************************************************)
(* When is a double the nearest one to a decimal literal?  Exact integer   *)
(* arithmetic on limbs of four decimal digits, least significant first     *)
(* (TLC's integers have 32 bits).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* --- natural numbers as sequences of limbs without leading zero limbs
RECURSIVE Spill(_)
Spill(c) == IF c = 0 THEN <<>> ELSE <<c % 10000>> \o Spill(c \div 10000)
MulAdd(a, k, c0) ==     \* a * k + c0 for k, c0 up to 10^4
  LET f == FoldLeft(LAMBDA s, x : LET t == x * k + s.c IN [r |-> Append(s.r, t % 10000), c |-> t \div 10000],
                    [r |-> <<>>, c |-> c0], a)
  IN IF k = 0 THEN Spill(c0) ELSE f.r \o Spill(f.c)
RECURSIVE MulPow2(_, _)
MulPow2(a, n) == IF n = 0 THEN a ELSE IF n >= 13 THEN MulPow2(MulAdd(a, 8192, 0), n - 13) ELSE MulAdd(a, 2^n, 0)
MulPow10(a, n) == IF a = <<>> THEN a ELSE [i \in 1..(n \div 4) |-> 0] \o MulAdd(a, 10^(n % 4), 0)
FromDigits(ds) ==       \* most significant digit first
  LET n  == Len(ds)
      D(i) == IF i < 1 THEN 0 ELSE ds[i]
      ls == [k \in 1..((n + 3) \div 4) |-> LET j == n - 4 * (k - 1) IN D(j) + 10 * D(j - 1) + 100 * D(j - 2) + 1000 * D(j - 3)]
      top == CHOOSE t \in 0..Len(ls) : (t = 0 \/ ls[t] # 0) /\ \A u \in (t + 1)..Len(ls) : ls[u] = 0
  IN SubSeq(ls, 1, top)
FromHex(hs) == FoldLeft(LAMBDA a, h : MulAdd(a, 16, h), <<>>, hs)
Cmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET df == {i \in 1..Len(a) : a[i] # b[i]} IN
       IF df = {} THEN 0 ELSE LET t == CHOOSE i \in df : \A j \in df : j <= i IN IF a[t] < b[t] THEN -1 ELSE 1

\* --- decimal literals: bytes of the RFC grammar -> sign, digits, power of ten
IsDig(b) == b >= 48 /\ b <= 57
Clamp == 100000
Decode(lit) ==
  LET neg  == lit[1] = 45
      body == IF neg THEN Tail(lit) ELSE lit
      epos == {i \in 1..Len(body) : body[i] \in {69, 101}}
      ei   == IF epos = {} THEN Len(body) + 1 ELSE CHOOSE i \in epos : TRUE
      mant == SubSeq(body, 1, ei - 1)
      rest == SubSeq(body, ei + 1, Len(body))
      eneg == rest # <<>> /\ rest[1] = 45
      eds  == SelectSeq(rest, IsDig)
      ev   == FoldLeft(LAMBDA a, b : IF a >= Clamp THEN Clamp ELSE a * 10 + (b - 48), 0, eds)
      dpos == {i \in 1..Len(mant) : mant[i] = 46}
      fl   == IF dpos = {} THEN 0 ELSE Len(mant) - (CHOOSE i \in dpos : TRUE)
      ds   == [i \in 1..Len(SelectSeq(mant, IsDig)) |-> SelectSeq(mant, IsDig)[i] - 48]
  IN [neg |-> neg, n |-> FromDigits(ds), e |-> (IF eneg THEN -ev ELSE ev) - fl]

\* D * 10^e  compared with  m * 2^q
CmpDec(d, m, q) ==
  LET l0 == IF d.e >= 0 THEN MulPow10(d.n, d.e) ELSE d.n
      r0 == IF d.e < 0 THEN MulPow10(m, -d.e) ELSE m
      l1 == IF q < 0 THEN MulPow2(l0, -q) ELSE l0
      r1 == IF q > 0 THEN MulPow2(r0, q) ELSE r0
  IN Cmp(l1, r1)

\* --- doubles: 16 hexadecimal digits (values 0..15), most significant first
Two52 == MulPow2(<<1>>, 52)
AddBig(a, b) ==     \* Len(a) >= Len(b)
  LET f == FoldLeft(LAMBDA s, i : LET t == a[i] + (IF i <= Len(b) THEN b[i] ELSE 0) + s.c IN [r |-> Append(s.r, t % 10000), c |-> t \div 10000],
                    [r |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i])
  IN f.r \o Spill(f.c)
DecOne(a) ==        \* a - 1 for a > 0
  LET z == CHOOSE k \in 1..Len(a) : a[k] # 0 /\ \A j \in 1..(k - 1) : a[j] = 0
      r == [i \in 1..Len(a) |-> IF i < z THEN 9999 ELSE IF i = z THEN a[i] - 1 ELSE a[i]]
  IN IF r[Len(r)] = 0 THEN SubSeq(r, 1, Len(r) - 1) ELSE r
Even(a) == a = <<>> \/ a[1] % 2 = 0

Nearest(lit, hs) ==
  LET d    == Decode(lit)
      neg  == hs[1] >= 8
      ex   == (hs[1] % 8) * 256 + hs[2] * 16 + hs[3]
      frh  == SubSeq(hs, 4, 16)
      fr   == FromHex(frh)
      frz  == \A i \in 1..13 : frh[i] = 0
      m    == IF ex = 0 THEN fr ELSE AddBig(Two52, fr)
      q    == IF ex = 0 THEN -1074 ELSE ex - 1075
      dig  == 4 * Len(d.n) + d.e      \* d < 10^dig, d >= 10^(dig-4)
  IN /\ neg = d.neg
     /\ IF d.n = <<>> THEN ex = 0 /\ frz
        ELSE IF dig > 400 THEN ex = 2047 /\ frz
        ELSE IF dig < -400 THEN ex = 0 /\ frz
        ELSE IF ex = 2047 THEN frz /\ CmpDec(d, DecOne(MulPow2(<<1>>, 54)), 970) >= 0
        ELSE /\ LET c == CmpDec(d, MulAdd(m, 2, 1), q - 1) IN c < 0 \/ (c = 0 /\ Even(m))
             /\ \/ m = <<>>
                \/ LET c == IF frz /\ ex > 1 THEN CmpDec(d, DecOne(MulAdd(m, 4, 0)), q - 2)
                            ELSE CmpDec(d, DecOne(MulAdd(m, 2, 0)), q - 1)
                   IN c > 0 \/ (c = 0 /\ Even(m))
=============================================================================
