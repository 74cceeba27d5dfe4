------------------------------ MODULE EvalText ------------------------------
(***************************************************************************)
(* The reports that the reader has to give for the buffers listed in a     *)
(* file (one JSON array of bytes per line).                                *)
(***************************************************************************)
EXTENDS JsonText, TLC, Json
CONSTANT File
Texts == ndJsonDeserialize(File)
VARIABLE i
Init == i = 1
Next == i <= Len(Texts) /\ PrintT(<<"V", ToJson(<<i, ReadBuffer(Texts[i])>>)>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
