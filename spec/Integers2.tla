----------------------------- MODULE Integers2 -----------------------------
(***************************************************************************)
(* Integers as their bytes (most significant first), their decimal and     *)
(* hexadecimal digits, and the readers of integers, numbers, words and     *)
(* types. TLC knows integers of 32 bits only: values are divided bytewise. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Given,     \* integers as sequences of four or eight bytes
          Bytes4, Bytes8,    \* bytes that are combined to integers of four and eight bytes
          MaxText, Readers, Limits
VARIABLES kind, x
vars == <<kind, x>>

Least(a, b) == IF a < b THEN a ELSE b
Cut(s, n) == SubSeq(s, 1, Least(Len(s), n))
Zero(b) == \A i \in 1..Len(b) : b[i] = 0
\* quotient and remainder of a division by ten, byte by byte
Division(b) == FoldLeft(LAMBDA r, d : <<Append(r[1], (r[2] * 256 + d) \div 10), (r[2] * 256 + d) % 10>>, <<<<>>, 0>>, b)
RECURSIVE Digits(_)
Digits(b) == LET d == Division(b) IN (IF Zero(d[1]) THEN <<>> ELSE Digits(d[1])) \o <<48 + d[2]>>
\* two's complement
Negated(b) == FoldRight(LAMBDA d, r : <<<<(255 - d + r[2]) % 256>> \o r[1], (255 - d + r[2]) \div 256>>, b, <<<<>>, 1>>)[1]
Negative(b) == b[1] >= 128
Unsigned(b) == Digits(b)
Signed(b) == IF Negative(b) THEN <<45>> \o Digits(Negated(b)) ELSE Digits(b)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Hex(b) == FoldLeft(LAMBDA r, d : r \o <<HexDigit(d \div 16), HexDigit(d % 16)>>, <<>>, b)
\* the value of digits, as bytes: multiplication by ten and addition
RECURSIVE Accumulate(_, _)
Accumulate(b, carry) == IF b = <<>> THEN <<>> ELSE LET v == b[Len(b)] * 10 + carry IN Accumulate(SubSeq(b, 1, Len(b) - 1), v \div 256) \o <<v % 256>>
ValueOf(ds, n) == FoldLeft(LAMBDA b, d : Accumulate(b, d - 48), [i \in 1..n |-> 0], ds)

\* types: up to four characters in an integer
UpToZero(b) == IF \E i \in 1..Len(b) : b[i] = 0 THEN Cut(b, (CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..i - 1 : b[j] # 0) - 1) ELSE b
TypeText(b) == UpToZero(IF b[1] = 0 THEN Tail(b) ELSE b)
HexChar(b) == <<48, 120>> \o Hex(b) \o <<32, 39>> \o TypeText(b) \o <<39>>
Pad4(s) == [i \in 1..4 |-> IF i <= Len(s) THEN s[i] ELSE 0]

\* readers: <<what was read, bytes used>>
Digit(c) == c \in 48..57
RECURSIVE Run(_)
Run(s) == IF s # <<>> /\ Digit(s[1]) THEN 1 + Run(Tail(s)) ELSE 0
ReadInteger(s, max) == LET m == Cut(s, max) sign == IF m # <<>> /\ m[1] = 45 THEN 1 ELSE 0
                           n == sign + Run(SubSeq(m, sign + 1, Len(m))) IN <<Cut(s, n), n>>
\* digits with at most one point and one exponent, a minus sign at the beginning and right after the exponent
RECURSIVE FloatRun(_, _, _, _)
FloatRun(s, point, exp, justexp) ==
  IF s = <<>> THEN 0
  ELSE CASE s[1] = 46 -> IF point THEN 0 ELSE 1 + FloatRun(Tail(s), TRUE, exp, justexp)
         [] s[1] \in {69, 101} -> IF exp THEN 0 ELSE 1 + FloatRun(Tail(s), point, TRUE, TRUE)
         [] s[1] = 45 -> IF justexp THEN 1 + FloatRun(Tail(s), point, exp, FALSE) ELSE 0
         [] Digit(s[1]) -> 1 + FloatRun(Tail(s), point, exp, FALSE)
         [] OTHER -> 0
ReadFloat(s, max) == LET m == Cut(s, max) sign == IF m # <<>> /\ m[1] = 45 THEN 1 ELSE 0
                         n == sign + FloatRun(SubSeq(m, sign + 1, Len(m)), FALSE, FALSE, FALSE) IN <<Cut(s, n), n>>
\* text in quotes with escaped characters: <<what was read, bytes used>>; at most max bytes after the first quote are used
RECURSIVE Quoted(_, _, _, _)
Quoted(s, q, i, max) ==
  IF i > Len(s) \/ i > max + 1 THEN <<<<>>, i - 1>>
  ELSE IF s[i] = q THEN <<<<>>, i>>
  ELSE IF s[i] = 92 THEN (IF i + 1 > Len(s) \/ i + 1 > max + 1 THEN <<<<>>, i>>
                          ELSE LET r == Quoted(s, q, i + 2, max) IN <<<<s[i + 1]>> \o r[1], r[2]>>)
  ELSE LET r == Quoted(s, q, i + 1, max) IN <<<<s[i]>> \o r[1], r[2]>>
RECURSIVE Word(_)
Word(s) == IF s = <<>> \/ s[1] < 33 \/ (s[1] = 47 /\ Len(s) > 1 /\ s[2] = 47) THEN 0 ELSE 1 + Word(Tail(s))
ReadString(s, max) == IF s # <<>> /\ s[1] = 34 THEN Quoted(s, 34, 2, max) ELSE LET n == Least(max, Word(s)) IN <<Cut(s, n), n>>
\* a type in single quotes: its last four characters
ReadType(s) == IF s # <<>> /\ s[1] = 39
               THEN LET r == Quoted(s, 39, 2, 1000) z == <<0, 0, 0, 0>> \o r[1] IN <<SubSeq(z, Len(z) - 3, Len(z)), r[2]>>
               ELSE <<<<0, 0, 0, 0>>, 0>>

Init == \/ kind = "int" /\ x \in Given
        \/ kind = "int" /\ x \in Bytes4 \X Bytes4 \X Bytes4 \X Bytes4
        \/ kind = "int" /\ x \in Bytes8 \X Bytes8 \X Bytes8 \X Bytes8 \X Bytes8 \X Bytes8 \X Bytes8 \X Bytes8
        \/ kind \in DOMAIN Readers /\ x = <<>>
Next == kind # "int" /\ kind' = kind /\ Len(x) < MaxText /\ \E c \in Readers[kind] : x' = Append(x, c)
Spec == Init /\ [][Next]_vars

Laws ==
  /\ kind = "int" => /\ ValueOf(Unsigned(x), Len(x)) = x
                     /\ Negated(Negated(x)) = x
                     /\ ReadInteger(Signed(x), 100) = <<Signed(x), Len(Signed(x))>>
                     /\ ReadFloat(Signed(x), 100) = ReadInteger(Signed(x), 100)
                     /\ Unsigned(x)[1] = 48 => Zero(x)
                     /\ x[1] # 0 /\ Len(x) = 4 => Pad4(TypeText(x)) = x \/ \E i \in 1..4 : x[i] = 0
  /\ kind = "int" /\ Len(x) = 4 /\ (\A i \in 1..4 : x[i] \notin {0, 39, 92}) => ReadType(<<39>> \o TypeText(x) \o <<39>>) = <<x, 6>>
  /\ kind = "ReadInteger" => ReadInteger(x, Len(x))[2] <= ReadFloat(x, Len(x))[2]
Expect(m) == CASE kind = "ReadInteger" -> ReadInteger(x, m) [] kind = "ReadFloat" -> ReadFloat(x, m) [] kind = "ReadString" -> ReadString(x, m) [] kind = "ReadType" -> ReadType(x)
Emitted == IF kind = "int"
           THEN PrintT(<<"V", ToJson(<<kind, x, Signed(x), Unsigned(x), Hex(x), IF Len(x) = 4 THEN <<TypeText(x), HexChar(x)>> ELSE <<>>>>)>>)
           ELSE PrintT(<<"V", ToJson(<<kind, x, [i \in 1..Len(Limits) |-> Expect(Limits[i])], Pad4(x)>>)>>)
=============================================================================
