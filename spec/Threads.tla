------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Threads that work on documents of their own and read a shared one.      *)
(* An operation begins, may be suspended in the middle (after so many      *)
(* points at which the real one can be suspended), and ends; anything may  *)
(* happen in other threads in between.  Whatever the schedule, a thread    *)
(* gets what it would get alone.                                           *)
(***************************************************************************)
EXTENDS Document
CONSTANTS Progs,        \* what the threads do: sequences of <<buffer at the start, sequence of operations>>
          SharedBuffer, \* the buffer of the shared document
          Cuts,         \* points at which an operation is suspended
          Segments      \* how often

VARIABLES progs, roots, at, seg, touts, sched
tvars == <<progs, roots, at, seg, touts, sched>>
Shared == Reads[SharedBuffer][4]
Threads == 1..Len(progs)

\* "V", "R", "L": validating against, deserialising from, looking at the shared document
DoT(op, r) ==
  CASE op[1] = "V" -> <<r, Do(<<"v", op[2]>>, Shared)[2], 0, 0, None>>
    [] op[1] = "R" -> LET d == Do(<<"d", op[2]>>, Shared) IN <<r, d[2], 0, 0, d[5]>>
    [] op[1] = "L" -> <<r, Ok, 0, 0, Shared>>
    [] OTHER -> Do(op, r)

TInit == /\ progs \in Progs /\ sched = <<>> /\ Init
         /\ roots = [t \in Threads |-> Reads[progs[t][1]][4]]
         /\ at = [t \in Threads |-> 1] /\ seg = [t \in Threads |-> 0] /\ touts = [t \in Threads |-> <<>>]
Busy(t) == at[t] <= Len(progs[t][2])
Run(t) == /\ Busy(t) /\ seg[t] < Segments
          /\ seg' = [seg EXCEPT ![t] = @ + 1]
          /\ \E q \in Cuts : sched' = Append(sched, <<t, q>>)
          /\ UNCHANGED <<progs, roots, at, touts>>
Finish(t) == /\ Busy(t) /\ seg[t] = Segments
             /\ seg' = [seg EXCEPT ![t] = 0] /\ at' = [at EXCEPT ![t] = @ + 1] /\ sched' = Append(sched, <<t, 0>>)
             /\ LET r == DoT(progs[t][2][at[t]], roots[t]) IN roots' = [roots EXCEPT ![t] = r[1]] /\ touts' = [touts EXCEPT ![t] = Append(@, r)]
             /\ UNCHANGED progs
TNext == (\E t \in Threads : Run(t) \/ Finish(t)) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, tvars>>

RECURSIVE Alone(_, _, _)
Alone(ops, k, r) == IF k = 0 THEN <<>>
                    ELSE LET before == Alone(ops, k - 1, r)
                         IN Append(before, DoT(ops[k], IF k = 1 THEN r ELSE before[k - 1][1]))
Isolation == \A t \in Threads : touts[t] = Alone(progs[t][2], at[t] - 1, Reads[progs[t][1]][4])
Done == \A t \in Threads : ~Busy(t)
Emitted4 == Done => PrintT(<<"V", ToJson(<<progs, sched, touts>>)>>)
==============================================================================
