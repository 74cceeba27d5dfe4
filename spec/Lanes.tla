------------------------------- MODULE Lanes -------------------------------
(***************************************************************************)
(* The arithmetic helpers: operations on vectors of lanes, on single       *)
(* floats and on integers. Floats are integers here (the real arguments    *)
(* are these divided by a scale), so that every result is exact. A result  *)
(* is the sequence of the lanes that are defined.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Bitwise, TLC, Json
CONSTANTS Scale,     \* arguments are divided, results multiplied by this
          Ops,       \* the operations of this model: name -> <<number of arguments, kind>>
          Args       \* the arguments that are combined
VARIABLES op, xs
vars == <<op, xs>>

Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Clip(a, lo, hi) == Most(lo, Least(a, hi))
Floor(a) == (a \div Scale) * Scale                    \* \div rounds towards minus infinity
Ceil(a) == -(((-a) \div Scale) * Scale)
Toward0(a) == IF a < 0 THEN -((-a) \div Scale) ELSE a \div Scale
Nearest(a) == (2 * a + Scale) \div (2 * Scale)
Lanes(f(_), a) == [i \in DOMAIN a |-> f(a[i])]
Pairs(f(_, _), a, b) == [i \in DOMAIN a |-> f(a[i], b[i])]
Yes(b) == <<IF b THEN 1 ELSE 0>>
Dot(a, b, n) == FoldLeft(LAMBDA s, i : s + a[i] * b[i], 0, [i \in 1..n |-> i])
Plus(a, b) == Pairs(LAMBDA x, y : x + y, a, b)
Times(k, a) == Lanes(LAMBDA x : k * x, a)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Lo(a) == SubSeq(a, 1, Len(a) \div 2)
Hi(a) == SubSeq(a, Len(a) \div 2 + 1, Len(a))
Merge(a, b) == [i \in 1..2 * Len(a) |-> IF i % 2 = 1 THEN a[(i + 1) \div 2] ELSE b[i \div 2]]
Bytes(a, signed) == Lanes(LAMBDA x : IF signed /\ x >= 128 THEN x - 256 ELSE x, a)
Words(a, signed) == Lanes(LAMBDA x : IF signed /\ x >= 32768 THEN x - 65536 ELSE x, a)
Same(a) == [i \in 1..4 |-> a]
\* eight lanes are two vectors
Twice(f(_), a) == f(Lo(a)) \o f(Hi(a))
Saturated(a, lo, hi) == Lanes(LAMBDA x : Clip(x, lo, hi), a)

Vector(o, x) == LET a == x[1] b == IF Len(x) > 1 THEN x[2] ELSE <<>> c == IF Len(x) > 2 THEN x[3] ELSE <<>> IN
  CASE o \in {"SmearX", "LoadSmearScalar"} -> Same(a[1])
    [] o = "SmearY" -> Same(a[2])
    [] o = "SmearZ" -> Same(a[3])
    [] o = "SmearW" -> Same(a[4])
    [] o \in {"Load", "LoadUnaligned", "Store", "StoreUnaligned"} -> a
    [] o = "LoadScalar" -> <<a[1]>>
    [] o = "StoreX" -> <<a[1]>> [] o = "StoreY" -> <<a[2]>> [] o = "StoreZ" -> <<a[3]>> [] o = "StoreW" -> <<a[4]>>
    [] o = "Store3D" -> SubSeq(a, 1, 3)
    [] o = "Shuffle0123" -> <<a[4], a[3], b[2], b[1]>>
    [] o = "Shuffle3210" -> <<a[1], a[2], b[3], b[4]>>
    [] o = "Shuffle1302" -> <<a[3], a[1], b[4], b[2]>>
    [] o \in {"Negate", "Neg"} -> Lanes(LAMBDA v : -v, a)
    [] o = "Min" -> Pairs(Least, a, b)
    [] o = "Max" -> Pairs(Most, a, b)
    [] o = "MinScalar" -> <<Least(a[1], b[1])>>
    [] o = "MaxScalar" -> <<Most(a[1], b[1])>>
    [] o \in {"Add", "Plus"} -> Plus(a, b)
    [] o = "AddScalar" -> <<a[1] + b[1]>>
    [] o \in {"Sub", "Minus"} -> Plus(a, Times(-1, b))
    [] o = "SubScalar" -> <<a[1] - b[1]>>
    [] o \in {"Mul", "Star"} -> Pairs(LAMBDA v, w : v * w, a, b)
    [] o = "MulScalar" -> <<a[1] * b[1]>>
    [] o = "Madd" -> Plus(c, Pairs(LAMBDA v, w : v * w, a, b))
    [] o = "MaddScalar" -> <<a[1] * b[1] + c[1]>>
    [] o = "Nmsub" -> Plus(c, Pairs(LAMBDA v, w : -(v * w), a, b))
    [] o = "NmsubScalar" -> <<c[1] - a[1] * b[1]>>
    \* the driver divides the product by the second factor, which gives the first one
    [] o \in {"Div", "Slash"} -> a
    [] o = "DivScalar" -> <<a[1]>>
    [] o = "MaskCmpeq" -> Pairs(LAMBDA v, w : IF v = w THEN 1 ELSE 0, a, b)
    [] o = "MaskCmplt" -> Pairs(LAMBDA v, w : IF v < w THEN 1 ELSE 0, a, b)
    [] o = "MaskCmpgt" -> Pairs(LAMBDA v, w : IF v > w THEN 1 ELSE 0, a, b)
    [] o = "SelectLess" -> [i \in 1..4 |-> IF a[i] < b[i] THEN b[i] ELSE a[i]]
    [] o = "CmpeqScalar" -> Yes(a[1] = b[1])
    [] o = "CmpltScalar" -> Yes(a[1] < b[1])
    [] o = "CmpgtScalar" -> Yes(a[1] > b[1])
    [] o = "CmpltAny3D" -> Yes(\E i \in 1..3 : a[i] < b[i])
    [] o = "CmpgtAny3D" -> Yes(\E i \in 1..3 : a[i] > b[i])
    [] o = "Fsgn" -> Lanes(Sign, a)
    [] o = "Fnsgn" -> Lanes(LAMBDA v : -Sign(v), a)
    [] o = "NonzeroFsgn" -> Lanes(LAMBDA v : IF v < 0 THEN -1 ELSE 1, a)
    [] o = "NonzeroFnsgn" -> Lanes(LAMBDA v : IF v < 0 THEN 1 ELSE -1, a)
    [] o = "HorizontalSum3D" -> <<a[1] + a[2] + a[3]>>
    [] o = "Dot3D" -> <<Dot(a, b, 3)>>
    [] o = "Dot4D" -> <<Dot(a, b, 4)>>
    [] o = "PlaneDotPoint3D" -> <<Dot(a, b, 3) + a[4]>>
    [] o = "Project3D" -> Times(Dot(a, b, 3), b)
    [] o = "Reject3D" -> Plus(a, Times(-Dot(a, b, 3), b))
    [] o = "Cross3D" -> Cross(a, b)
    [] o = "TransformVector3D" -> Plus(Times(x[4][1], a), Plus(Times(x[4][2], b), Times(x[4][3], c)))
    [] o = "TransformPoint3D" -> Plus(x[4], Plus(Times(x[5][1], a), Plus(Times(x[5][2], b), Times(x[5][3], c))))
    \* the same on eight lanes
    [] o \in {"ExvLoad", "ExvStore"} -> a
    [] o = "ExvFloat" -> a \o b
    [] o = "ExvSmearX" -> Twice(LAMBDA h : Same(h[1]), a) [] o = "ExvSmearY" -> Twice(LAMBDA h : Same(h[2]), a)
    [] o = "ExvSmearZ" -> Twice(LAMBDA h : Same(h[3]), a) [] o = "ExvSmearW" -> Twice(LAMBDA h : Same(h[4]), a)
    [] o = "ExvSmearVecLo" -> Lo(a) \o Lo(a) [] o = "ExvSmearVecHi" -> Hi(a) \o Hi(a)
    [] o = "ExvLoadSmearScalar" -> Same(a[1]) \o Same(a[1])
    [] o = "ExvStoreX" -> <<a[1]>> [] o = "ExvStoreY" -> <<a[2]>> [] o = "ExvStoreZ" -> <<a[3]>> [] o = "ExvStoreW" -> <<a[4]>>
    [] o \in {"ExvMul", "ExvStar"} -> Pairs(LAMBDA v, w : v * w, a, b)
    [] o = "ExvMadd" -> Plus(c, Pairs(LAMBDA v, w : v * w, a, b))

Rounding(o, x) == LET a == x[1] IN
  CASE o \in {"Floor", "PositiveFloor", "NegativeFloor"} -> Lanes(Floor, a)
    [] o \in {"Ceil", "PositiveCeil", "NegativeCeil"} -> Lanes(Ceil, a)
    [] o \in {"FloorScalar", "PositiveFloorScalar", "NegativeFloorScalar", "MathFloor", "MathPositiveFloor", "MathNegativeFloor"} -> <<Floor(a[1])>>
    [] o \in {"CeilScalar", "PositiveCeilScalar", "NegativeCeilScalar", "MathCeil", "MathPositiveCeil", "MathNegativeCeil"} -> <<Ceil(a[1])>>
    [] o \in {"FloorCeil", "PositiveFloorCeil", "NegativeFloorCeil"} -> Lanes(Floor, a) \o Lanes(Ceil, a)
    [] o \in {"FloorCeilScalar", "PositiveFloorCeilScalar", "NegativeFloorCeilScalar", "MathFloorCeil", "MathPositiveFloorCeil", "MathNegativeFloorCeil"} -> <<Floor(a[1]), Ceil(a[1])>>
    [] o \in {"MathFrac", "MathPositiveFrac", "MathNegativeFrac"} -> <<a[1] - Floor(a[1])>>
    [] o = "TruncateConvert" -> <<Toward0(a[1]) * Scale>>
    [] o = "ConvertInt32" -> Lanes(LAMBDA v : Nearest(v) * Scale, a)
    [] o = "Fabs" -> <<IF a[1] < 0 THEN -a[1] ELSE a[1]>>
    [] o = "Fnabs" -> <<IF a[1] < 0 THEN a[1] ELSE -a[1]>>
    [] o = "MathFsgn" -> <<Sign(a[1]) * Scale>>
    [] o = "MathFnsgn" -> <<-Sign(a[1]) * Scale>>
    [] o = "MathNonzeroFsgn" -> <<IF a[1] < 0 THEN -Scale ELSE Scale>>
    [] o = "MathNonzeroFnsgn" -> <<IF a[1] < 0 THEN Scale ELSE -Scale>>
    [] o = "FminZero" -> <<Least(a[1], 0)>>
    [] o = "FmaxZero" -> <<Most(a[1], 0)>>
    [] o = "Saturate" -> <<Clip(a[1], 0, Scale)>>
    [] o = "Fmin2" -> <<Least(a[1], a[2])>>
    [] o = "Fmax2" -> <<Most(a[1], a[2])>>
    [] o = "Fmin3" -> <<Least(Least(a[1], a[2]), a[3])>>
    [] o = "Fmax3" -> <<Most(Most(a[1], a[2]), a[3])>>
    [] o = "Fmin4" -> <<Least(Least(a[1], a[2]), Least(a[3], a[4]))>>
    [] o = "Fmax4" -> <<Most(Most(a[1], a[2]), Most(a[3], a[4]))>>
    [] o = "Clamp" -> <<Clip(a[1], Least(a[2], a[3]), Most(a[2], a[3]))>>      \* the driver orders the limits

\* lanes are patterns of bits
Patterns(o, x) == LET a == x[1] b == x[2] IN
  CASE o \in {"And", "Ampersand"} -> Pairs(LAMBDA v, w : v & w, a, b)
    [] o = "Andc" -> Pairs(LAMBDA v, w : v & (255 - w), a, b)
    [] o \in {"Or", "Bar"} -> Pairs(LAMBDA v, w : v | w, a, b)
    [] o \in {"Xor", "Hat"} -> Pairs(LAMBDA v, w : v ^^ w, a, b)
    [] o = "Select" -> [i \in 1..4 |-> (a[i] & (255 - x[3][i])) | (b[i] & x[3][i])]

Ints(o, x) == LET a == x[1] b == IF Len(x) > 1 THEN x[2] ELSE <<>> IN
  CASE o \in {"Int8Load", "Int8LoadUnaligned", "UInt8Load", "UInt8LoadUnaligned", "Int16Load", "Int16LoadUnaligned", "UInt16Load", "UInt16LoadUnaligned"} -> a
    [] o = "Int32StoreX" -> <<a[1]>> [] o = "Int32StoreY" -> <<a[2]>> [] o = "Int32StoreZ" -> <<a[3]>> [] o = "Int32StoreW" -> <<a[4]>>
    [] o = "Int32PackSaturate" -> Saturated(a \o a, -32768, 32767)
    [] o = "Int32PackSaturate2" -> Saturated(a \o b, -32768, 32767)
    [] o = "Int16PackSaturate" -> Saturated(a \o a, -128, 127)
    [] o = "Int16PackUnsignedSaturate" -> Saturated(a \o a, 0, 255)
    [] o = "Int8UnpackA" -> Bytes(Lo(a), TRUE) [] o = "Int8UnpackB" -> Bytes(Hi(a), TRUE)
    [] o = "UInt8UnpackA" -> Bytes(Lo(a), FALSE) [] o = "UInt8UnpackB" -> Bytes(Hi(a), FALSE)
    [] o = "Int16UnpackA" -> Words(Lo(a), TRUE) [] o = "Int16UnpackB" -> Words(Hi(a), TRUE)
    [] o = "UInt16UnpackA" -> Words(Lo(a), FALSE) [] o = "UInt16UnpackB" -> Words(Hi(a), FALSE)
    [] o \in {"Int8MergeA", "UInt8MergeA"} -> Merge(Lo(a), Lo(b))
    [] o \in {"Int8MergeB", "UInt8MergeB"} -> Merge(Hi(a), Hi(b))
    [] o = "Int16Deinterleave" -> <<a[1], a[3], a[5], a[7], a[2], a[4], a[6], a[8]>>
    [] o = "Int32ConvertFloat" -> a
    [] o = "Int32Add" -> Plus(a, b)
    [] o = "Int32Sub" -> Plus(a, Times(-1, b))

\* integers of 32 bits
Basic(o, x) == LET a == x[1][1] b == x[1][2] IN
  CASE o = "Abs" -> <<IF a < 0 THEN -a ELSE a>>
    [] o = "Sgn" -> <<Sign(a)>>
    [] o = "IMin" -> <<Least(a, b)>>
    [] o = "IMax" -> <<Most(a, b)>>
    [] o = "MinZero" -> <<Least(a, 0)>>
    [] o = "MaxZero" -> <<Most(a, 0)>>
    [] o = "IncMod7" -> <<(a + 1) % 7>>
    [] o = "DecMod7" -> <<(a + 6) % 7>>
    [] o = "OverflowZero" -> <<IF a < b THEN a ELSE 0>>
    [] o = "Exchange" -> <<b, a>>
    [] o = "ExchangeSelf" -> <<a>>

\* integers as their bits, the most significant first
Leading(a) == IF \E i \in DOMAIN a : a[i] = 1 THEN (CHOOSE i \in DOMAIN a : a[i] = 1 /\ \A j \in 1..i - 1 : a[j] = 0) - 1 ELSE Len(a)
Power(n, k) == [i \in 1..n |-> IF i = n - k THEN 1 ELSE 0]
Flip(a) == FoldRight(LAMBDA d, r : <<<<(1 - d + r[2]) % 2>> \o r[1], (1 - d + r[2]) \div 2>>, a, <<<<>>, 1>>)[1]
Below(a, b) == \E i \in DOMAIN a : (IF i = 1 THEN a[i] > b[i] ELSE a[i] < b[i]) /\ \A j \in 1..i - 1 : a[j] = b[j]
Nil(a) == [i \in DOMAIN a |-> 0]
One(n, neg) == IF neg THEN [i \in 1..n |-> 1] ELSE Power(n, 0)
Bits(o, x) == LET a == x[1] b == IF Len(x) > 1 THEN x[2] ELSE <<>> n == Len(a) IN
  CASE o = "Cntlz" -> <<Leading(a)>>
    [] o = "IntLog2" -> <<n - 1 - Leading(a)>>
    [] o = "Pow2Floor" -> Power(n, n - 1 - Leading(a))
    [] o = "Pow2Ceil" -> LET k == n - 1 - Leading(a) IN IF a = Power(n, k) THEN a ELSE Power(n, k + 1)
    [] o = "Abs64" -> IF a[1] = 1 THEN Flip(a) ELSE a
    [] o = "Sgn64" -> IF a = Nil(a) THEN a ELSE One(n, a[1] = 1)
    [] o = "Min64" -> IF Below(a, b) THEN a ELSE b
    [] o = "Max64" -> IF Below(a, b) THEN b ELSE a
    [] o = "MinZero64" -> IF a[1] = 1 THEN a ELSE Nil(a)
    [] o = "MaxZero64" -> IF a[1] = 1 THEN Nil(a) ELSE a

\* square roots of squares, up to one part in 131072 (in units of 1/K)
K == 65536
Around(v) == <<v - (v \div 131072) - 1, v + (v \div 131072) + 1>>
Roots(o, x) == LET a == x[1] IN
  CASE o \in {"VecSqrt"} -> [i \in 1..4 |-> Around(K * a[i])]
    [] o \in {"VecSqrtScalar", "Sqrt"} -> <<Around(K * a[1])>>
    [] o \in {"VecInverseSqrt"} -> [i \in 1..4 |-> Around((K * 16384) \div a[i])]
    [] o \in {"VecInverseSqrtScalar", "InverseSqrt"} -> <<Around((K * 16384) \div a[1])>>

Result(o, x) == CASE Ops[o][2] = "vector" -> Vector(o, x) [] Ops[o][2] = "rounding" -> Rounding(o, x) [] Ops[o][2] = "patterns" -> Patterns(o, x)
                  [] Ops[o][2] = "ints" -> Ints(o, x) [] Ops[o][2] = "basic" -> Basic(o, x) [] Ops[o][2] = "bits" -> Bits(o, x) [] Ops[o][2] = "roots" -> Roots(o, x)
Init == /\ op \in DOMAIN Ops
        /\ xs = <<>>
Next == /\ Len(xs) < Ops[op][1]
        /\ \E a \in Args : xs' = Append(xs, a)
        /\ UNCHANGED op
Spec == Init /\ [][Next]_vars
Complete == Len(xs) = Ops[op][1]
Emitted == Complete => PrintT(<<"V", ToJson(<<op, xs, Result(op, xs)>>)>>)

(* laws that tie the definitions to each other *)
Laws == Complete => LET r == Result(op, xs) IN
  /\ op = "Floor" => \A i \in 1..4 : r[i] <= xs[1][i] /\ xs[1][i] < r[i] + Scale /\ r[i] % Scale = 0
  /\ op = "Ceil" => \A i \in 1..4 : r[i] >= xs[1][i] /\ xs[1][i] > r[i] - Scale /\ r[i] % Scale = 0
  /\ op = "Cross3D" => /\ Dot(r, xs[1], 3) = 0 /\ Dot(r, xs[2], 3) = 0
                       /\ Cross(xs[2], xs[1]) = Lanes(LAMBDA v : -v, r)
                       /\ Dot(r, r, 3) = Dot(xs[1], xs[1], 3) * Dot(xs[2], xs[2], 3) - Dot(xs[1], xs[2], 3) * Dot(xs[1], xs[2], 3)
  /\ op = "Reject3D" => Plus(r, Times(Dot(xs[1], xs[2], 3), xs[2])) = xs[1]
  /\ op = "Select" => \A i \in 1..4 : (r[i] ^^ xs[1][i]) = ((xs[1][i] ^^ xs[2][i]) & xs[3][i])
  /\ op = "Abs64" => r[1] = 0 \/ r = Power(Len(r), Len(r) - 1)
  /\ op = "Min64" => ~Below(xs[1], r) /\ ~Below(xs[2], r) /\ r \in {xs[1], xs[2]}
  /\ op = "Pow2Floor" => ~\E i \in 1..Len(r) : r[i] = 1 /\ xs[1][i] = 0
=============================================================================
