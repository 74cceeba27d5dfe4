------------------------------- MODULE FileIO -------------------------------
(***************************************************************************)
(* Writing and reading a file through system calls that may be short or    *)
(* fail.  Contents are abstracted to offsets: n is the length of the text  *)
(* (or of the file), and the library may cut its requests as it likes.     *)
(*                                                                         *)
(* A plan says what the system does:                                       *)
(*   open, stat, close  whether these calls succeed                        *)
(*   cuts               offsets that no single transfer crosses            *)
(*   cap                most bytes per transfer                            *)
(*   err                offset at which a transfer fails (-1: none)        *)
(*   eof                offset at which reading finds the end (-1: none)   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* the device: bytes transferred when want bytes are asked for at offset p; -1 is an error
Transfer(plan, p, want) ==
  IF plan.err = p THEN -1
  ELSE IF plan.eof = p THEN 0
  ELSE Min({want, plan.cap} \cup {c - p : c \in {x \in plan.cuts : x > p}}
           \cup (IF plan.err > p THEN {plan.err - p} ELSE {}) \cup (IF plan.eof > p THEN {plan.eof - p} ELSE {}))

MaxFile == 65534
\* what a write of n bytes has to come to: status, bytes in the file (-1: file untouched)
WriteOutcome(plan, n) ==
  IF ~plan.open THEN <<"KFileOpenError", -1>>
  ELSE IF plan.err >= 0 /\ plan.err < n THEN <<"KFileWriteError", plan.err>>
  ELSE IF ~plan.close THEN <<"KFileWriteError", n>>
  ELSE <<"kOk", n>>
\* what reading a file of n bytes has to come to before the text is looked at ("text": it is then read as a buffer)
ReadOutcome(plan, n) ==
  IF ~plan.open THEN "KFileOpenError"
  ELSE IF ~plan.stat THEN "refused"
  ELSE IF n > MaxFile THEN "KFileTooLarge"
  ELSE IF (plan.err >= 0 /\ plan.err < n) \/ (plan.eof >= 0 /\ plan.eof < n) THEN "KFileReadError"
  ELSE "text"

(***************************************************************************)
(* The library as a machine over the calls it makes. The call sequence it  *)
(* chooses is free, except that it                                         *)
(*   - transfers contiguously from offset 0 and stops at the first error,  *)
(*   - closes a file that it opened exactly once,                          *)
(*   - reports success only when everything was transferred.               *)
(* A call is <<name, offset, asked, returned>>.                            *)
(***************************************************************************)
F0 == [phase |-> "start", pos |-> 0, ok |-> TRUE]
CallStep(kind, plan, n, f, c) ==
  CASE c[1] = "open" ->
         [f EXCEPT !.ok = @ /\ f.phase = "start" /\ (c[4] >= 0) = plan.open,
                   !.phase = IF c[4] >= 0 THEN "open" ELSE "noopen"]
    [] c[1] = "stat" -> f
    [] c[1] = kind ->
         LET t == Transfer(plan, f.pos, c[3]) IN
         [f EXCEPT !.ok = @ /\ f.phase = "open" /\ c[2] = f.pos /\ c[4] = t /\ (kind = "write" => f.pos + c[3] <= n),
                   !.pos = IF c[4] > 0 THEN @ + c[4] ELSE @,
                   !.phase = IF c[4] < 0 \/ (c[4] = 0 /\ c[3] > 0) THEN "stopped" ELSE "open"]
    [] c[1] = "close" ->
         [f EXCEPT !.ok = @ /\ f.phase \in {"open", "stopped"}, !.phase = "closed"]
    [] OTHER -> [f EXCEPT !.ok = FALSE]
RECURSIVE Calls(_, _, _, _, _)
Calls(kind, plan, n, f, cs) == IF cs = <<>> THEN f ELSE Calls(kind, plan, n, CallStep(kind, plan, n, f, Head(cs)), Tail(cs))
CallsOk(kind, plan, n, cs) ==
  LET f == Calls(kind, plan, n, F0, cs) IN f.ok /\ f.phase \in {"closed", "noopen"}
CallsPos(kind, plan, n, cs) == Calls(kind, plan, n, F0, cs).pos
=============================================================================
