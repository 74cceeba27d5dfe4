----------------------------- MODULE EvalBinding -----------------------------
(* What validating, deserialising and serialising must give, for recorded   *)
(* documents and data: t = type, d = document, old = data of the target.    *)
EXTENDS Binding, TLC, Json
CONSTANTS File, Types
Recs == ndJsonDeserialize(File)
Verdict(r) ==
  LET T == Types[r.t] IN
  IF r.op = "load"
  THEN LET f == Fit(T, r.d) IN <<f, IF f = Ok THEN Load(T, r.d, r.old) ELSE <<"none">>>>
  ELSE <<Store(T, r.old), Load(T, Store(T, r.old), Fresh(T)), Onto(T, r.d, r.old)>>
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", ToJson(<<i, Verdict(Recs[i])>>)>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
