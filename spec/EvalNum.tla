------------------------------ MODULE EvalNum ------------------------------
(* For every recorded [lit, bits]: is the double the nearest one to the literal? *)
EXTENDS Decimal, TLC, Json
CONSTANT File
Recs == ndJsonDeserialize(File)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", ToJson(<<i, Nearest(Recs[i].lit, Recs[i].bits)>>)>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
