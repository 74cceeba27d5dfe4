-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Ownership of memory.  A trace is a sequence of events <<form, block>>:  *)
(* a block is taken as "new" or "new[]" and given back as "delete" or      *)
(* "delete[]".  A trace is good if every block is given back once, after   *)
(* it was taken and in its form, and none is left at the end.              *)
(* TLC checks that this can be judged for each block by itself (Projects). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
Takes  == {"new", "new[]"}
Gives  == {"delete", "delete[]"}
Forms  == Takes \cup Gives
Mate   == [f \in Takes |-> IF f = "new" THEN "delete" ELSE "delete[]"]

\* the heap as a state machine: live holds <<block, form in which it has to be given back>>
Legal(live, e) == IF e[1] \in Takes THEN \A p \in live : p[1] # e[2] ELSE <<e[2], e[1]>> \in live
Step(live, e)  == IF e[1] \in Takes THEN live \cup {<<e[2], Mate[e[1]]>>} ELSE live \ {<<e[2], e[1]>>}
RECURSIVE Good(_, _, _)
Good(t, live, i) == IF i > Len(t) THEN live = {} ELSE Legal(live, t[i]) /\ Good(t, Step(live, t[i]), i + 1)

\* the same for the events of one block
RECURSIVE OneGood(_)
OneGood(fs) == fs = <<>> \/ (Len(fs) >= 2 /\ fs[1] \in Takes /\ fs[2] = Mate[fs[1]] /\ OneGood(SubSeq(fs, 3, Len(fs))))
Of(t, b) == LET s == SelectSeq(t, LAMBDA e : e[2] = b) IN [j \in 1..Len(s) |-> s[j][1]]

CONSTANTS MaxLen, NBlocks
VARIABLE trace
Init == trace = <<>>
Next == Len(trace) < MaxLen /\ \E f \in Forms, b \in 1..NBlocks : trace' = Append(trace, <<f, b>>)
Spec == Init /\ [][Next]_trace
Projects == Good(trace, {}, 1) <=> \A b \in 1..NBlocks : OneGood(Of(trace, b))
=============================================================================
