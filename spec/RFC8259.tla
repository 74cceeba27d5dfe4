------------------------------ MODULE RFC8259 ------------------------------
(***************************************************************************)
(* The grammar of RFC 8259, rule by rule, as sets of derivations:          *)
(* X(t, i) is the set of <<j, v>> such that t[i..j-1] derives from the     *)
(* rule X with the value v. It shares nothing with the byte machine of     *)
(* JsonText, which is checked against it.                                  *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

At(t, i) == IF i <= Len(t) THEN t[i] ELSE 999
Sub(t, i, j) == SubSeq(t, i, j - 1)

\* ws = *( %x20 / %x09 / %x0A / %x0D )
Ws(t, i) == {j \in i..(Len(t) + 1) : \A k \in i..(j - 1) : t[k] \in {32, 9, 10, 13}}
\* a structural character with the white space around it
Structural(t, i, c) == UNION {IF At(t, a) = c THEN Ws(t, a + 1) ELSE {} : a \in Ws(t, i)}

Digits(t, i)  == {j \in (i + 1)..(Len(t) + 1) : \A k \in i..(j - 1) : t[k] \in 48..57}   \* 1*DIGIT
Digits0(t, i) == {i} \cup Digits(t, i)
IntE(t, i)  == (IF At(t, i) = 48 THEN {i + 1} ELSE {}) \cup
               (IF At(t, i) \in 49..57 THEN Digits0(t, i + 1) ELSE {})
FracE(t, i) == {i} \cup (IF At(t, i) = 46 THEN Digits(t, i + 1) ELSE {})
ExpE(t, i)  == {i} \cup (IF At(t, i) \in {69, 101}
                         THEN Digits(t, i + 1) \cup (IF At(t, i + 1) \in {43, 45} THEN Digits(t, i + 2) ELSE {})
                         ELSE {})
NumberE(t, i) == UNION {UNION {UNION {ExpE(t, c) : c \in FracE(t, b)} : b \in IntE(t, a)}
                        : a \in IF At(t, i) = 45 THEN {i, i + 1} ELSE {i}}
Number(t, i) == {<<j, <<"n", Sub(t, i, j)>>>> : j \in NumberE(t, i)}

\* char: a unit is <<"c", code point>> (unescaped), <<"e", UTF-16 unit>> (\uXXXX)
ContByte(b) == b \in 128..191
UtfChar(t, i) ==   \* well formed UTF-8 (RFC 3629), one character
  LET b1 == At(t, i) b2 == At(t, i + 1) b3 == At(t, i + 2) b4 == At(t, i + 3) IN
  (IF b1 < 128 THEN {<<i + 1, b1>>} ELSE {}) \cup
  (IF b1 \in 192..223 /\ ContByte(b2)
   THEN LET c == (b1 - 192) * 64 + (b2 - 128) IN IF c >= 128 THEN {<<i + 2, c>>} ELSE {} ELSE {}) \cup
  (IF b1 \in 224..239 /\ ContByte(b2) /\ ContByte(b3)
   THEN LET c == ((b1 - 224) * 64 + (b2 - 128)) * 64 + (b3 - 128)
        IN IF c >= 2048 /\ c \notin 55296..57343 THEN {<<i + 3, c>>} ELSE {} ELSE {}) \cup
  (IF b1 \in 240..247 /\ ContByte(b2) /\ ContByte(b3) /\ ContByte(b4)
   THEN LET c == (((b1 - 240) * 64 + (b2 - 128)) * 64 + (b3 - 128)) * 64 + (b4 - 128)
        IN IF c >= 65536 /\ c <= 1114111 THEN {<<i + 4, c>>} ELSE {} ELSE {})
HexDigit == 48..57 \cup 65..70 \cup 97..102
HV(b) == CHOOSE v \in 0..15 : (b = 48 + v /\ v < 10) \/ (b = 55 + v /\ v > 9) \/ (b = 87 + v /\ v > 9)
Simple == [x \in {34, 92, 47, 98, 102, 110, 114, 116} |->
             CASE x = 98 -> 8 [] x = 102 -> 12 [] x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9 [] OTHER -> x]
Char(t, i) ==
  {<<p[1], <<"c", p[2]>>>> : p \in {q \in UtfChar(t, i) : q[2] >= 32 /\ q[2] # 34 /\ q[2] # 92}} \cup
  (IF At(t, i) = 92 /\ At(t, i + 1) \in DOMAIN Simple THEN {<<i + 2, <<"c", Simple[At(t, i + 1)]>>>>} ELSE {}) \cup
  (IF At(t, i) = 92 /\ At(t, i + 1) = 117 /\ \A k \in 2..5 : At(t, i + k) \in HexDigit
   THEN {<<i + 6, <<"e", ((HV(t[i + 2]) * 16 + HV(t[i + 3])) * 16 + HV(t[i + 4])) * 16 + HV(t[i + 5])>>>>} ELSE {})
RECURSIVE Chars(_, _)
Chars(t, i) == {<<i, <<>>>>} \cup UNION {{<<q[1], <<p[2]>> \o q[2]>> : q \in Chars(t, p[1])} : p \in Char(t, i)}

Encode(c) == CASE c < 128 -> <<c>>
               [] c >= 128 /\ c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
               [] c >= 2048 /\ c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
               [] c >= 65536 -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* The characters the units stand for, as UTF-8; an escaped surrogate pair is one character
RECURSIVE Bytes(_)
Bytes(u) ==
  IF u = <<>> THEN <<>>
  ELSE IF Len(u) >= 2 /\ u[1][1] = "e" /\ u[2][1] = "e" /\ u[1][2] \in 55296..56319 /\ u[2][2] \in 56320..57343
  THEN Encode(65536 + (u[1][2] - 55296) * 1024 + (u[2][2] - 56320)) \o Bytes(SubSeq(u, 3, Len(u)))
  ELSE Encode(u[1][2]) \o Bytes(Tail(u))
StringE(t, i) == IF At(t, i) # 34 THEN {}
                 ELSE {<<p[1] + 1, Bytes(p[2])>> : p \in {q \in Chars(t, i + 1) : At(t, q[1]) = 34}}
String(t, i) == {<<p[1], <<"s", p[2]>>>> : p \in StringE(t, i)}

Literal(t, i, w, v) == IF i + Len(w) - 1 <= Len(t) /\ Sub(t, i, i + Len(w)) = w THEN {<<i + Len(w), v>>} ELSE {}

RECURSIVE Value(_, _), Elements(_, _), Members(_, _)
\* value *( value-separator value )
Elements(t, i) ==
  UNION {LET j == p[1] IN
         {<<j, <<p[2]>>>>} \cup
         UNION {{<<q[1], <<p[2]>> \o q[2]>> : q \in Elements(t, k)} : k \in Structural(t, j, 44)}
         : p \in Value(t, i)}
Member(t, i) == UNION {UNION {{<<q[1], <<p[2], q[2]>>>> : q \in Value(t, k)} : k \in Structural(t, p[1], 58)}
                       : p \in StringE(t, i)}
Members(t, i) ==
  UNION {LET j == p[1] IN
         {<<j, <<p[2]>>>>} \cup
         UNION {{<<q[1], <<p[2]>> \o q[2]>> : q \in Members(t, k)} : k \in Structural(t, j, 44)}
         : p \in Member(t, i)}
\* the derivation starts at a non-space: white space belongs to the structural characters
StructAt(t, i, c) == IF At(t, i) = c THEN Ws(t, i + 1) ELSE {}
EndAt(t, i, c) == {a + 1 : a \in {x \in Ws(t, i) : At(t, x) = c}}
ArrayV(t, i) == UNION {{<<j, <<"a", <<>>>>>> : j \in EndAt(t, a, 93)} \cup
                       UNION {{<<j, <<"a", p[2]>>>> : j \in EndAt(t, p[1], 93)} : p \in Elements(t, a)}
                       : a \in StructAt(t, i, 91)}
ObjectV(t, i) == UNION {{<<j, <<"o", <<>>>>>> : j \in EndAt(t, a, 125)} \cup
                        UNION {{<<j, <<"o", p[2]>>>> : j \in EndAt(t, p[1], 125)} : p \in Members(t, a)}
                        : a \in StructAt(t, i, 123)}
Value(t, i) ==
  IF i > Len(t) THEN {}
  ELSE Literal(t, i, <<116, 114, 117, 101>>, <<"b", 1>>) \cup Literal(t, i, <<102, 97, 108, 115, 101>>, <<"b", 0>>) \cup
       Literal(t, i, <<110, 117, 108, 108>>, <<"z">>) \cup
       Number(t, i) \cup String(t, i) \cup ArrayV(t, i) \cup ObjectV(t, i)

\* JSON-text = ws value ws
Texts(t) == {p[2] : p \in {q \in UNION {Value(t, i) : i \in Ws(t, 1)} : (Len(t) + 1) \in Ws(t, q[1])}}
IsJson(t) == Texts(t) # {}

\* The value the library gives a text: the first of several members of one name counts
RECURSIVE FirstWins(_)
FirstWins(v) ==
  CASE v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> FirstWins(v[2][i])]>>
    [] v[1] = "o" ->
         LET keep == {i \in 1..Len(v[2]) : \A k \in 1..(i - 1) : v[2][k][1] # v[2][i][1]}
             Nth(n) == CHOOSE i \in keep : Cardinality({k \in keep : k <= i}) = n
         IN <<"o", [n \in 1..Cardinality(keep) |-> <<v[2][Nth(n)][1], FirstWins(v[2][Nth(n)][2])>>]>>
    [] OTHER -> v

\* Texts on which the library departs from the RFC by design, see DESIGN.md
HasNulEscape(t) == \E i \in 1..Len(t) : i + 5 <= Len(t) /\ SubSeq(t, i, i + 5) = <<92, 117, 48, 48, 48, 48>>
HasRawSurrogate(t) == \E i \in 1..Len(t) : i < Len(t) /\ t[i] = 237 /\ t[i + 1] \in 160..191
Excepted(t) == HasNulEscape(t) \/ HasRawSurrogate(t)
=============================================================================
