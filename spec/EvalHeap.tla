------------------------------ MODULE EvalHeap ------------------------------
(* Judges recorded histories of single blocks: sequences of forms. *)
EXTENDS Heap, Json
CONSTANT File
Recs == ndJsonDeserialize(File)
VARIABLE i
EInit == i = 1 /\ trace = <<>>
ENext == i <= Len(Recs) /\ PrintT(<<"V", ToJson(<<i, OneGood(Recs[i])>>)>>) /\ i' = i + 1 /\ UNCHANGED trace
ESpec == EInit /\ [][ENext]_<<i, trace>>
=============================================================================
