------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The JSON reader as a machine that consumes a text buffer byte by byte.  *)
(* A buffer is a sequence of bytes (0..255) whose last byte is NUL.        *)
(* The machine decides acceptance, the value, and, for a rejected text,    *)
(* the status and the line and column that the reader has to report.       *)
(*                                                                         *)
(* Values:  <<"s",bytes>>  <<"n",literal bytes>>  <<"b",0 or 1>>  <<"z">>   *)
(*          <<"a",seq of values>>  <<"o",seq of <<name bytes,value>>>>      *)
(* Object members are in the order of first appearance; the first of       *)
(* several members of the same name counts.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

CONSTANT MaxDepth       \* brackets that may be open at the same time (1024)

WS      == {32, 9, 10, 13}
Digit   == 48..57
Digit19 == 49..57
NumByte == Digit \cup {43, 45, 46, 69, 101}
Hex     == Digit \cup 65..70 \cup 97..102
HexVal(b) == IF b <= 57 THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87

LitT == <<114, 117, 101>>
LitF == <<97, 108, 115, 101>>
LitN == <<117, 108, 108>>

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* mode: what is expected next        stk: the open containers
\* acc: bytes of the string or number being read          sub: state within a token
\* tl, tc: where an error in the current token is reported
\* ln, co: position of the next byte      pend: high surrogate that may get its other half
M0 == [mode |-> "val", stk |-> <<>>, acc |-> <<>>, sub |-> 0, cu |-> 0, key |-> FALSE, pend |-> 0,
       tl |-> 1, tc |-> 1, ln |-> 1, co |-> 1, root |-> <<"none">>,
       st |-> "kOk", el |-> 0, ec |-> 0]

Fail(m, status, l, c) == [m EXCEPT !.mode = "err", !.st = status, !.el = l, !.ec = c, !.root = <<"none">>, !.stk = <<>>, !.acc = <<>>]
FailHere(m, status)   == Fail(m, status, m.ln, m.co)
FailTok(m, status)    == Fail(m, status, m.tl, m.tc)

Adv(m, b) == IF b = 10 THEN [m EXCEPT !.ln = @ + 1, !.co = 1] ELSE [m EXCEPT !.co = @ + 1]

\* a complete value has been read
Deliver(m, v) ==
  IF m.stk = <<>> THEN [m EXCEPT !.mode = "fin", !.root = v, !.acc = <<>>]
  ELSE LET n == Len(m.stk)
           f == m.stk[n]
           g == IF f[1] = "a" THEN <<"a", Append(f[2], v)>>
                ELSE IF \E i \in 1..Len(f[2]) : f[2][i][1] = f[3] THEN f
                ELSE <<"o", Append(f[2], <<f[3], v>>), f[3]>>
       IN [m EXCEPT !.mode = "aft", !.stk = [m.stk EXCEPT ![n] = g], !.acc = <<>>]

Pop(m) ==
  LET n == Len(m.stk)
      f == m.stk[n]
  IN Deliver([m EXCEPT !.stk = SubSeq(m.stk, 1, n - 1)], <<f[1], f[2]>>)

Tok(m)  == [m EXCEPT !.tl = m.ln, !.tc = m.co]        \* the token starts at this byte
TokN(m) == [m EXCEPT !.tl = m.ln, !.tc = m.co + 1]    \* ... at the next one

\* first byte of a value (not white space)
StartValue(m, b) ==
  CASE b = 34 -> Adv([TokN(m) EXCEPT !.mode = "str", !.acc = <<>>, !.key = FALSE, !.pend = 0], b)
    [] b = 45 -> Adv([Tok(m) EXCEPT !.mode = "num", !.acc = <<b>>, !.sub = "sign"], b)
    [] b = 48 -> Adv([Tok(m) EXCEPT !.mode = "num", !.acc = <<b>>, !.sub = "zero"], b)
    [] b \in Digit19 -> Adv([Tok(m) EXCEPT !.mode = "num", !.acc = <<b>>, !.sub = "int"], b)
    [] b = 116 -> Adv([Tok(m) EXCEPT !.mode = "lit", !.acc = LitT, !.cu = 1], b)
    [] b = 102 -> Adv([Tok(m) EXCEPT !.mode = "lit", !.acc = LitF, !.cu = 0], b)
    [] b = 110 -> Adv([Tok(m) EXCEPT !.mode = "lit", !.acc = LitN, !.cu = 2], b)
    [] b \in {91, 123} ->
         IF Len(m.stk) >= MaxDepth THEN FailHere(m, "kNestingTooDeep")
         ELSE IF b = 91 THEN Adv([m EXCEPT !.mode = "arr0", !.stk = Append(@, <<"a", <<>>>>)], b)
         ELSE Adv([m EXCEPT !.mode = "obj0", !.stk = Append(@, <<"o", <<>>, <<>>>>)], b)
    [] OTHER -> FailHere(m, "kExpectedJsonValue")

StartKey(m, b) == Adv([TokN(m) EXCEPT !.mode = "str", !.acc = <<>>, !.key = TRUE, !.pend = 0], b)

\* a byte after a complete value
After(m, b) ==
  IF b \in WS THEN Adv(m, b)
  ELSE IF m.stk = <<>>
       THEN IF b = 0 THEN Adv([Tok(m) EXCEPT !.mode = "pad"], b) ELSE FailHere(m, "kExpectedEndOfFile")
  ELSE IF m.stk[Len(m.stk)][1] = "a"
       THEN IF b = 44 THEN Adv([m EXCEPT !.mode = "val"], b)
            ELSE IF b = 93 THEN Adv(Pop(m), b)
            ELSE FailHere(m, "kExpectedClosingSquareBracketsOrComma")
       ELSE IF b = 44 THEN Adv([m EXCEPT !.mode = "objk"], b)
            ELSE IF b = 125 THEN Adv(Pop(m), b)
            ELSE FailHere(m, "kExpectedClosingCurlyBracesOrComma")

\* number literals: the grammar of RFC 8259
NumNext(s, b) ==
  CASE s = "sign" -> IF b = 48 THEN "zero" ELSE IF b \in Digit19 THEN "int" ELSE "bad"
    [] s = "zero" -> IF b = 46 THEN "dot" ELSE IF b \in {69, 101} THEN "e" ELSE "bad"
    [] s = "int"  -> IF b \in Digit THEN "int" ELSE IF b = 46 THEN "dot" ELSE IF b \in {69, 101} THEN "e" ELSE "bad"
    [] s = "dot"  -> IF b \in Digit THEN "frac" ELSE "bad"
    [] s = "frac" -> IF b \in Digit THEN "frac" ELSE IF b \in {69, 101} THEN "e" ELSE "bad"
    [] s = "e"    -> IF b \in {43, 45} THEN "es" ELSE IF b \in Digit THEN "exp" ELSE "bad"
    [] s = "es"   -> IF b \in Digit THEN "exp" ELSE "bad"
    [] s = "exp"  -> IF b \in Digit THEN "exp" ELSE "bad"
    [] OTHER      -> "bad"
NumDone == {"zero", "int", "frac", "exp"}

InNumber(m, b) ==
  IF b \in NumByte
  THEN IF m.sub = "zero" /\ b \in Digit
       THEN Fail(m, "kNumbersCannotHaveLeadingZeros", m.tl, IF m.acc[1] = 45 THEN m.tc + 1 ELSE m.tc)
       ELSE Adv([m EXCEPT !.acc = Append(@, b), !.sub = NumNext(m.sub, b)], b)
  ELSE IF m.sub \in NumDone THEN After(Deliver(m, <<"n", m.acc>>), b)
  ELSE FailTok(m, "kExpectedJsonValue")

InLiteral(m, b) ==
  IF b # Head(m.acc) THEN FailTok(m, "kExpectedJsonValue")
  ELSE IF Len(m.acc) > 1 THEN Adv([m EXCEPT !.acc = Tail(@)], b)
  ELSE Adv(Deliver(m, IF m.cu = 2 THEN <<"z">> ELSE <<"b", m.cu>>), b)

\* strings and member names
Flush(m) == IF m.pend = 0 THEN m ELSE [m EXCEPT !.acc = @ \o Utf8(m.pend), !.pend = 0]
Put(m, bs) == LET f == Flush(m) IN [f EXCEPT !.acc = @ \o bs, !.mode = "str"]

EndString(m0) ==
  LET m == Flush(m0) IN
  IF m.key
  THEN LET n == Len(m.stk) IN [m EXCEPT !.mode = "colon", !.stk = [@ EXCEPT ![n] = <<"o", m.stk[n][2], m.acc>>], !.acc = <<>>]
  ELSE Deliver(m, <<"s", m.acc>>)

Cont(m, b, left, lo, hi) == Adv([Flush(m) EXCEPT !.mode = "utf", !.acc = Append(@, b), !.sub = <<left, lo, hi>>], b)

InString(m, b) ==
  CASE b = 34 -> Adv(EndString(m), b)
    [] b = 92 -> Adv([m EXCEPT !.mode = "esc"], b)
    [] b = 0  -> FailTok(m, "kPrematureNullTerminator")
    [] b \in 1..31 -> FailTok(m, "kStringIllegalChar")
    [] b \in 32..127 -> Adv(Put(m, <<b>>), b)
    [] b \in 194..223 -> Cont(m, b, 1, 128, 191)
    [] b = 224 -> Cont(m, b, 2, 160, 191)
    [] b \in 225..239 -> Cont(m, b, 2, 128, 191)
    [] b = 240 -> Cont(m, b, 3, 144, 191)
    [] b \in 241..243 -> Cont(m, b, 3, 128, 191)
    [] b = 244 -> Cont(m, b, 3, 128, 143)
    [] OTHER -> FailTok(m, "kStringIllegalChar")

InUtf(m, b) ==
  IF b >= m.sub[2] /\ b <= m.sub[3]
  THEN IF m.sub[1] = 1 THEN Adv([m EXCEPT !.acc = Append(@, b), !.mode = "str"], b)
       ELSE Adv([m EXCEPT !.acc = Append(@, b), !.sub = <<m.sub[1] - 1, 128, 191>>], b)
  ELSE FailTok(m, "kStringIllegalChar")

Escaped(b) == CASE b \in {34, 92, 47} -> b [] b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10
                [] b = 114 -> 13 [] b = 116 -> 9 [] OTHER -> 0

InEscape(m, b) ==
  IF b = 117 THEN Adv([m EXCEPT !.mode = "hex", !.sub = 4, !.cu = 0], b)
  ELSE IF Escaped(b) # 0 THEN Adv(Put(m, <<Escaped(b)>>), b)
  ELSE FailTok(m, "kStringIllegalEscape")

IsHigh(c) == c >= 55296 /\ c <= 56319
IsLow(c)  == c >= 56320 /\ c <= 57343
PutUnit(m, c) ==
  IF m.pend # 0 /\ IsLow(c)
  THEN [m EXCEPT !.mode = "str", !.acc = @ \o Utf8(65536 + (m.pend - 55296) * 1024 + (c - 56320)), !.pend = 0]
  ELSE IF IsHigh(c) THEN [Flush(m) EXCEPT !.mode = "str", !.pend = c]
  ELSE Put(m, Utf8(c))

InHex(m, b) ==
  IF b \notin Hex THEN FailTok(m, "kStringIllegalEscape")
  ELSE LET c == m.cu * 16 + HexVal(b) IN
       IF m.sub > 1 THEN Adv([m EXCEPT !.cu = c, !.sub = @ - 1], b)
       ELSE IF c = 0 THEN FailTok(m, "kStringIllegalEscape")
       ELSE Adv(PutUnit(m, c), b)

Step(m, b) ==
  CASE m.mode = "err" -> m
    [] m.mode = "val" -> IF b \in WS THEN Adv(m, b) ELSE StartValue(m, b)
    [] m.mode = "arr0" -> IF b \in WS THEN Adv(m, b) ELSE IF b = 93 THEN Adv(Pop(m), b) ELSE StartValue(m, b)
    [] m.mode = "obj0" -> IF b \in WS THEN Adv(m, b) ELSE IF b = 125 THEN Adv(Pop(m), b)
                          ELSE IF b = 34 THEN StartKey(m, b) ELSE FailHere(m, "kExpectedBeginingDoubleQuotes")
    [] m.mode = "objk" -> IF b \in WS THEN Adv(m, b) ELSE IF b = 125 THEN FailHere(m, "kExpectedJsonValue")
                          ELSE IF b = 34 THEN StartKey(m, b) ELSE FailHere(m, "kExpectedBeginingDoubleQuotes")
    [] m.mode = "colon" -> IF b \in WS THEN Adv(m, b) ELSE IF b = 58 THEN Adv([m EXCEPT !.mode = "val"], b)
                           ELSE FailHere(m, "kExpectedColon")
    [] m.mode = "str" -> InString(m, b)
    [] m.mode = "num" -> InNumber(m, b)
    [] m.mode = "lit" -> InLiteral(m, b)
    [] m.mode = "esc" -> InEscape(m, b)
    [] m.mode = "hex" -> InHex(m, b)
    [] m.mode = "utf" -> InUtf(m, b)
    [] m.mode = "aft" -> After(m, b)
    [] m.mode = "fin" -> After(m, b)
    [] m.mode = "pad" -> IF b = 0 THEN m ELSE FailTok(m, "kExpectedEndOfFile")

Feed(m, bytes) == FoldLeft(Step, m, bytes)

\* What reading a buffer reports: <<status, line, column, value>>
Report(m) == IF m.mode = "pad" THEN <<"kOk", 0, 0, m.root>>
             ELSE <<m.st, m.el, m.ec, <<"none">>>>
ReadBuffer(buf) ==
  IF Len(buf) < 2 THEN <<"kTextBufferContentsInvalid", 0, 0, <<"none">>>>
  ELSE IF buf[Len(buf)] # 0 THEN <<"kUnterminatedTextBuffer", 0, 0, <<"none">>>>
  ELSE Report(Feed(M0, buf))
\* ... of a text (the reader adds the terminating NUL)
AtEnd(m) == Report(Step(m, 0))

\* Bytes that complete a text that has not been rejected yet
Closing(mm) ==
  LET close == [i \in 1..Len(mm.stk) |-> IF mm.stk[Len(mm.stk) + 1 - i][1] = "a" THEN 93 ELSE 125]
      tokend == CASE mm.mode \in {"val"} -> <<110, 117, 108, 108>>
                  [] mm.mode = "objk" -> <<34, 34, 58, 49>>
                  [] mm.mode = "colon" -> <<58, 49>>
                  [] mm.mode = "str" -> IF mm.key THEN <<34, 58, 49>> ELSE <<34>>
                  [] mm.mode = "esc" -> IF mm.key THEN <<110, 34, 58, 49>> ELSE <<110, 34>>
                  [] mm.mode = "hex" -> [i \in 1..mm.sub |-> 49] \o (IF mm.key THEN <<34, 58, 49>> ELSE <<34>>)
                  [] mm.mode = "utf" -> <<mm.sub[2]>> \o [i \in 1..(mm.sub[1] - 1) |-> 128] \o (IF mm.key THEN <<34, 58, 49>> ELSE <<34>>)
                  [] mm.mode = "lit" -> mm.acc
                  [] mm.mode = "num" -> IF mm.sub \in NumDone THEN <<>> ELSE <<49>>
                  [] OTHER -> <<>>
  IN tokend \o close
=============================================================================
