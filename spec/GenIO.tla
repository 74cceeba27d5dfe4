-------------------------------- MODULE GenIO --------------------------------
(* Enumerates the plans for a text of N bytes: every pair of cuts from Cut, *)
(* every failing offset from Err, every failing call.                       *)
EXTENDS FileIO, TLC, Json
CONSTANTS N, Kind, Cut, Err, Caps
Base == [open |-> TRUE, stat |-> TRUE, close |-> TRUE, cuts |-> {}, cap |-> N + 1, err |-> -1, eof |-> -1]
VARIABLE plan
Init ==
  \/ \E a, b \in Cut : plan = [Base EXCEPT !.cuts = {a, b}]
  \/ \E c \in Caps : plan = [Base EXCEPT !.cap = c]
  \/ \E e \in Err, c \in Caps \cup {N + 1}, k \in {{}, {1}} : plan = [Base EXCEPT !.err = e, !.cap = c, !.cuts = k]
  \/ Kind = "read" /\ \E e \in Err, c \in Caps \cup {N + 1} : plan = [Base EXCEPT !.eof = e, !.cap = c]
  \/ \E e \in Err \cup {-1}, c \in Caps : plan = [Base EXCEPT !.close = FALSE, !.err = e, !.cap = c]
  \/ plan = [Base EXCEPT !.open = FALSE]
  \/ Kind = "read" /\ plan = [Base EXCEPT !.stat = FALSE]
  \/ plan = Base
Next == FALSE /\ UNCHANGED plan
Spec == Init /\ [][Next]_plan
Outcome == IF Kind = "write" THEN WriteOutcome(plan, N) ELSE <<ReadOutcome(plan, N), 0>>
Emitted == PrintT(<<"V", ToJson(<<plan, Outcome>>)>>)
=============================================================================
