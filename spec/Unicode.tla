------------------------------ MODULE Unicode ------------------------------
(***************************************************************************)
(* Characters, UTF-8 and UTF-16. A character is a number up to 10FFFF; a   *)
(* sequence of bytes is well formed when it is the encoding of one (the    *)
(* surrogates D800 to DFFF are tolerated).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Last0 == 1114111
Replacement == 65533
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Least(a, b) == IF a < b THEN a ELSE b
Cut(s, n) == SubSeq(s, 1, Least(Len(s), n))

Enc(c) ==
  CASE c < 128 -> <<c>>
    [] c \in 128..2047 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c \in 2048..65535 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] c \in 65536..Last0 -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<>>
Width(b) == CASE b \in 192..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..247 -> 4 [] OTHER -> 1
Value(s, n) == FoldLeft(LAMBDA a, b : a * 64 + (b % 64), CASE n = 1 -> s[1] [] n = 2 -> s[1] % 32 [] n = 3 -> s[1] % 16 [] n = 4 -> s[1] % 8, SubSeq(s, 2, n))
\* bytes of the well-formed character that s begins with, 0 without one
Scan(s) == LET n == Width(s[1]) IN IF n <= Len(s) /\ Enc(Value(s, n)) = SubSeq(s, 1, n) THEN n ELSE 0
\* what a reader gets from s: <<character, bytes>>; the end is character 0
Read(s) == IF s = <<>> THEN <<0, 1>> ELSE IF Scan(s) > 0 THEN <<Value(s, Scan(s)), Scan(s)>> ELSE <<Replacement, 1>>
Validate(s) == IF s = <<>> THEN 1 ELSE Scan(s)
RECURSIVE Decode(_)
Decode(s) == IF s = <<>> \/ s[1] = 0 THEN <<>> ELSE <<Read(s)[1]>> \o Decode(SubSeq(s, Read(s)[2] + 1, Len(s)))
Encode(cs) == Cat([i \in 1..Len(cs) |-> Enc(cs[i])])

Surrogate(c) == c \in 55296..57343
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Wide(cs) == Cat([i \in 1..Len(cs) |-> Units(cs[i])])
\* characters of 16-bit units: a surrogate without its other half is ignored
RECURSIVE Narrow(_)
Narrow(u) == IF u = <<>> THEN <<>>
             ELSE IF u[1] \in 55296..56319 /\ Len(u) > 1 /\ u[2] \in 56320..57343
                  THEN <<65536 + (u[1] - 55296) * 1024 + (u[2] - 56320)>> \o Narrow(SubSeq(u, 3, Len(u)))
             ELSE (IF Surrogate(u[1]) THEN <<>> ELSE <<u[1]>>) \o Narrow(Tail(u))

\* the longest sequence of whole parts that takes at most max
RECURSIVE Fitting(_, _)
Fitting(parts, max) == IF parts = <<>> \/ Len(parts[1]) > max THEN <<>> ELSE parts[1] \o Fitting(Tail(parts), max - Len(parts[1]))
\* where characters begin, and where the last one ends
Begins(cs) == [i \in 1..Len(cs) + 1 |-> Len(Encode(SubSeq(cs, 1, i - 1)))]
=============================================================================
