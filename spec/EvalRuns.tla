------------------------------ MODULE EvalRuns ------------------------------
(***************************************************************************)
(* The reports for very long buffers, given as runs: bytes b, n times.     *)
(* White space between tokens and plain characters in a string are skipped *)
(* in one step.                                                            *)
(***************************************************************************)
EXTENDS JsonText, TLC, Json
CONSTANT File
Texts == ndJsonDeserialize(File)
VARIABLE i

Between == {"val", "arr0", "obj0", "objk", "colon", "aft", "fin"}
Plain == (32..127) \ {34, 92}
Skips(m, b) == (m.mode \in Between /\ b \in WS) \/ (m.mode = "str" /\ b \in Plain) \/ m.mode = "err"
Many(m, b, n) ==
  CASE m.mode = "err" -> m
    [] m.mode = "str" -> [Put(m, [k \in 1..n |-> b]) EXCEPT !.co = m.co + n]
    [] OTHER -> IF b = 10 THEN [m EXCEPT !.ln = @ + n, !.co = 1] ELSE [m EXCEPT !.co = @ + n]
Repeated(bs, n) == [k \in 1..(n * Len(bs)) |-> bs[((k - 1) % Len(bs)) + 1]]
Run(m, r) == IF r.n > 0 /\ Len(r.b) = 1 /\ Skips(m, r.b[1]) THEN Many(m, r.b[1], r.n) ELSE Feed(m, Repeated(r.b, r.n))
\* the terminating NUL is added
ReadRuns(rs) == AtEnd(FoldLeft(Run, M0, rs))

Init == i = 1
Next == i <= Len(Texts) /\ PrintT(<<"V", ToJson(<<i, ReadRuns(Texts[i])>>)>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* skipping is the same as reading
Contexts == {<<>>, <<91>>, <<91, 49, 32>>, <<91, 49, 44>>, <<123>>, <<123, 34, 97>>, <<123, 34, 34>>, <<123, 34, 34, 58>>, <<34>>, <<34, 92, 117, 68, 56, 48, 48>>, <<34, 34>>, <<120>>, <<10, 32>>}
ASSUME \A c \in Contexts, b \in {32, 9, 10, 13, 97, 127}, n \in 1..4 :
         LET m == Feed(M0, c) IN Skips(m, b) => Many(m, b, n) = Feed(m, Repeated(<<b>>, n))
=============================================================================
