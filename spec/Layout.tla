------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* What a written file has to be, given the indentation it was written     *)
(* with: a JSON text (the reader of JsonText gives its value, members in   *)
(* the order of the text, none repeated) in which every line starts with   *)
(* the indentation of its nesting depth.                                   *)
(***************************************************************************)
EXTENDS JsonText, TLC, Json
CONSTANT File      \* records [out, width, char]
Recs == ndJsonDeserialize(File)

\* s: the machine, the run of indentation characters at the start of the line (-1: not at its start), verdict
LayoutStep(w, ch, s, b) ==
  LET instr == s.m.mode \in {"str", "esc", "hex", "utf"}
      m2    == Step(s.m, b)
      depth == Len(m2.stk)
      want  == w * (IF b \in {91, 123} THEN depth - 1 ELSE depth)
  IN IF instr THEN [s EXCEPT !.m = m2, !.run = -1]
     ELSE IF b = 10 THEN [s EXCEPT !.m = m2, !.run = 0]
     ELSE IF s.run >= 0 /\ b = ch /\ b \in WS THEN [s EXCEPT !.m = m2, !.run = @ + 1]
     ELSE IF s.run >= 0
          THEN [s EXCEPT !.m = m2, !.run = -1,
                         !.ok = @ /\ s.run = (IF m2.mode \in {"aft", "fin"} /\ b \in {93, 125} THEN w * depth
                                              ELSE IF b \in {91, 123} THEN w * (depth - 1) ELSE w * depth)]
     ELSE [s EXCEPT !.m = m2]
LayoutOk(out, w, ch) ==
  FoldLeft(LAMBDA s, b : LayoutStep(w, ch, s, b), [m |-> M0, run |-> 0, ok |-> TRUE], out).ok

\* a member name that appears twice in one object is not in the value twice: compare the number of colons
Members(v) == LET RECURSIVE C(_)
                  C(x) == CASE x[1] = "a" -> FoldLeft(LAMBDA a, y : a + C(y), 0, x[2])
                            [] x[1] = "o" -> FoldLeft(LAMBDA a, y : a + 1 + C(y[2]), 0, x[2])
                            [] OTHER -> 0
              IN C(v)
Colons(out) == FoldLeft(LAMBDA s, b : [m |-> Step(s.m, b), n |-> IF s.m.mode = "colon" /\ b = 58 THEN s.n + 1 ELSE s.n],
                        [m |-> M0, n |-> 0], out).n

Verdict(r) ==
  LET rep == ReadBuffer(r.out \o <<0>>)
  IN <<rep, rep[1] = "kOk" => LayoutOk(r.out, r.width, r.char), rep[1] = "kOk" => Members(rep[4]) = Colons(r.out)>>

VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", ToJson(<<i, Verdict(Recs[i])>>)>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
