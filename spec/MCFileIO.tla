------------------------------ MODULE MCFileIO ------------------------------
(***************************************************************************)
(* Model: every plan over a text of N bytes, every way in which the        *)
(* library may cut its requests. Checked: whatever it does, the outcome is *)
(* the one of WriteOutcome / ReadOutcome, its calls are accepted by the    *)
(* call machine, and success means that all bytes were transferred.        *)
(***************************************************************************)
EXTENDS FileIO
CONSTANTS N, Kind
VARIABLES plan, phase, pos, failed, calls, res
vars == <<plan, phase, pos, failed, calls, res>>

Plans == [open : BOOLEAN, stat : IF Kind = "read" THEN BOOLEAN ELSE {TRUE}, close : BOOLEAN, cuts : SUBSET (1..(N - 1)), cap : {1, 2, N}, err : {-1} \cup (0..N),
          eof : IF Kind = "read" THEN {-1} \cup (0..N) ELSE {-1}]
Init == plan \in Plans /\ phase = "start" /\ pos = 0 /\ failed = FALSE /\ calls = <<>> /\ res = "none"

Open == /\ phase = "start"
        /\ calls' = <<<<"open", 0, 0, IF plan.open THEN 3 ELSE -1>>>>
        /\ IF plan.open THEN phase' = "open" /\ UNCHANGED res ELSE phase' = "done" /\ res' = "KFileOpenError"
        /\ UNCHANGED <<plan, pos, failed>>
Refuse == /\ Kind = "read" /\ phase = "open" /\ ~plan.stat /\ pos = 0 /\ ~failed
          /\ failed' = TRUE /\ res' = "refused"
          /\ UNCHANGED <<plan, phase, pos, calls>>
Ask == /\ phase = "open" /\ ~failed /\ pos < N /\ plan.stat
       /\ \E want \in 1..(N - pos) :
            LET t == Transfer(plan, pos, want) IN
            /\ calls' = Append(calls, <<Kind, pos, want, t>>)
            /\ pos' = IF t > 0 THEN pos + t ELSE pos
            /\ failed' = (t <= 0)
            /\ res' = IF t <= 0 THEN (IF Kind = "read" THEN "KFileReadError" ELSE "KFileWriteError") ELSE res
       /\ UNCHANGED <<plan, phase>>
Close == /\ phase = "open" /\ (failed \/ (pos = N /\ plan.stat))
         /\ calls' = Append(calls, <<"close", 0, 0, IF plan.close THEN 0 ELSE -1>>)
         /\ phase' = "done"
         /\ res' = IF failed THEN res ELSE IF Kind = "write" /\ ~plan.close THEN "KFileWriteError" ELSE IF Kind = "write" THEN "kOk" ELSE "text"
         /\ UNCHANGED <<plan, pos, failed>>
Next == Open \/ Refuse \/ Ask \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OutcomeOk == phase = "done" =>
   /\ IF Kind = "write" THEN <<res, IF plan.open THEN pos ELSE -1>> = WriteOutcome(plan, N) ELSE res = ReadOutcome(plan, N)
   /\ CallsOk(Kind, plan, N, calls)
SuccessMeansAll == phase = "done" /\ res \in {"kOk", "text"} => pos = N
Ends == <>(phase = "done")
=============================================================================
