---------------------------- MODULE GenUnicode ----------------------------
(* Blocks of characters, sequences of bytes, texts and sequences of units. *)
EXTENDS Unicode, TLC, Json, FiniteSets
CONSTANTS Blocks,    \* blocks of 256 characters
          Bytes4,    \* bytes, all four of which are combined
          Second,    \* first bytes after which every second byte is tried
          Chars, Bytes, Words,     \* parts of texts
          MaxChars, MaxBytes, MaxWords
VARIABLES kind, seq
vars == <<kind, seq>>
Init == \/ kind = "block" /\ seq \in {<<b>> : b \in Blocks}
        \/ kind = "four" /\ seq \in Bytes4 \X Bytes4
        \/ kind = "second" /\ seq \in {<<b>> : b \in Second}
        \/ kind \in {"text", "bytes", "words"} /\ seq = <<>>
Next == /\ kind' = kind
        /\ \/ kind = "text" /\ Len(seq) < MaxChars /\ \E c \in Chars : seq' = Append(seq, c)
           \/ kind = "bytes" /\ Len(seq) < MaxBytes /\ \E c \in Bytes : seq' = Append(seq, c)
           \/ kind = "words" /\ Len(seq) < MaxWords /\ \E c \in Words : seq' = Append(seq, c)
Spec == Init /\ [][Next]_vars

InBlock == [i \in 1..256 |-> seq[1] * 256 + i - 1]
Ordered4 == SetToSortSeq(Bytes4, LAMBDA a, b : a < b)
Seconds == {0, 127, 128, 143, 144, 159, 160, 191, 192, 255}
Tails == [i \in 1..256 |-> i - 1]
Upto(s) == IF \E i \in 1..Len(s) : s[i] = 0 THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..i - 1 : s[j] # 0) - 1) ELSE s
Judge(s) == LET u == Upto(s) IN <<Validate(u), Read(u)[1], Read(u)[2]>>

Laws ==
  /\ kind = "block" => \A i \in 1..256 : LET c == InBlock[i] IN
       /\ Len(Enc(c)) \in 1..4 /\ Scan(Enc(c)) = Len(Enc(c)) /\ Read(Enc(c)) = <<c, Len(Enc(c))>>
       /\ \A n \in 1..Len(Enc(c)) - 1 : Scan(SubSeq(Enc(c), 1, n)) = 0            \* no proper prefix is a character
       /\ ~Surrogate(c) => (c # 0 => Narrow(Units(c)) = <<c>>)
  /\ kind = "text" => /\ Decode(Encode(seq)) = seq
                      /\ (\A i \in 1..Len(seq) : ~Surrogate(seq[i])) => Narrow(Wide(seq)) = seq
  /\ kind = "bytes" => /\ Len(Decode(seq)) <= Len(seq)
                       /\ (\A i \in 1..Len(Decode(seq)) : Decode(seq)[i] # Replacement) => Encode(Decode(seq)) = seq

Convert8(cs) == [m \in 1..Len(Wide(cs)) + 2 |-> Fitting([i \in 1..Len(cs) |-> Units(cs[i])], m - 1)]
Convert16(cs) == [m \in 1..Len(Encode(cs)) + 2 |-> Fitting([i \in 1..Len(cs) |-> Enc(cs[i])], m - 1)]

\* of a text: bytes, units, then for every place and limit: characters, bytes of the next and of the previous character, bytes of n characters
OfText(cs) ==
  LET e == Encode(cs) b == Begins(cs) n == Len(cs) IN
  <<e, Wide(cs),
    [m \in 1..Len(e) + 2 |-> Cardinality({i \in 1..n : b[i] < m - 1})],
    [i \in 1..n |-> [m \in 1..6 |-> Least(m - 1, b[i + 1] - b[i])]],
    [i \in 1..n |-> [m \in 1..b[i + 1] + 1 |-> Least(m - 1, b[i + 1] - b[i])]],
    [k \in 1..n + 2 |-> b[Least(k, n + 1)]],
    Convert8(cs)>>

Emitted ==
  CASE kind = "block" -> PrintT(<<"V", ToJson(<<kind, seq[1], [i \in 1..256 |-> <<Enc(InBlock[i]), IF Surrogate(InBlock[i]) THEN <<>> ELSE Units(InBlock[i])>>]>>)>>)
    [] kind = "four" -> PrintT(<<"V", ToJson(<<kind, seq, Ordered4, [i \in 1..Len(Ordered4) |-> [j \in 1..Len(Ordered4) |-> Judge(seq \o <<Ordered4[i], Ordered4[j]>>)]]>>)>>)
    [] kind = "second" -> PrintT(<<"V", ToJson(<<kind, seq, [i \in 1..256 |-> <<Judge(<<seq[1], i - 1, 128, 128>>), Judge(<<seq[1], i - 1, 191, 191>>)>>]>>)>>)
    [] kind = "text" -> PrintT(<<"V", ToJson(<<kind, OfText(seq)>>)>>)
    [] kind = "bytes" -> PrintT(<<"V", ToJson(<<kind, seq, Decode(seq), Convert8(Decode(seq))>>)>>)
    [] kind = "words" -> PrintT(<<"V", ToJson(<<kind, seq, Encode(Narrow(seq)), Convert16(Narrow(seq))>>)>>)
=============================================================================
