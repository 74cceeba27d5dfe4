------------------------------- MODULE EvalIO -------------------------------
(* Judges recorded system calls: records [kind, plan, n, calls]. *)
EXTENDS FileIO, TLC, Json
CONSTANT File
Recs == ndJsonDeserialize(File)
PlanOf(p) == [p EXCEPT !.cuts = {p.cuts[k] : k \in 1..Len(p.cuts)}]
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Recs)
        /\ LET r == Recs[i] p == PlanOf(r.plan)
           IN PrintT(<<"V", ToJson(<<i, <<CallsOk(r.kind, p, r.n, r.calls), CallsPos(r.kind, p, r.n, r.calls)>>>>)>>)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
