------------------------------- MODULE EvalMap -------------------------------
(***************************************************************************)
(* Judges recorded histories: n elements, ops, and per operation what the  *)
(* code showed: the result, the elements destroyed so far, and, for each   *)
(* map (unless not looked at), its tree, the elements forwards, backwards  *)
(* and by index, count, emptiness and whether ownership is consistent.     *)
(***************************************************************************)
EXTENDS SortedMap, TLC, Json
CONSTANT File
Recs == ndJsonDeserialize(File)
MapOk(w, m, o) ==
  LET s == InOrder(o.tree) IN
  /\ ToSet(s) = In(w, m) /\ Len(s) = Cardinality(In(w, m)) /\ Ordered(s)
  /\ Balanced(o.tree)
  /\ o.fwd = s /\ o.bwd = Reverse(s) /\ o.idx = s /\ o.count = Len(s) /\ o.empty = (s = <<>>) /\ o.own
RECURSIVE Go(_, _, _)
\* 0 if every step is as specified, otherwise the first step that is not
Go(r, w, i) ==
  IF i > Len(r.ops) THEN 0
  ELSE LET a == Apply(w, r.ops[i])
           o == r.obs[i]
       IN IF /\ o.res = a[1]
             /\ ToSet(o.dead) = In(a[2], 3)
             /\ \A m \in 1..Len(o.maps) : MapOk(a[2], m, o.maps[m])
          THEN Go(r, a[2], i + 1) ELSE i
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ PrintT(<<"V", ToJson(<<i, Go(Recs[i], [e \in 0..(Recs[i].n - 1) |-> 0], 1)>>)>>) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
