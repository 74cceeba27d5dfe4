-------------------------------- MODULE Memory --------------------------------
(***************************************************************************)
(* A document object when memory runs out: one operation of a history      *)
(* fails because an allocation in it fails.  The operation then reports an *)
(* exception; one that only looks at the document leaves it as it is, one  *)
(* that replaces it leaves it as it is or empty; and everything works as   *)
(* before afterwards.                                                      *)
(***************************************************************************)
EXTENDS Document
CONSTANTS Groups        \* of histories: <<first, second, third>>, sets of operations <<kind, index>>

VARIABLES group, failed \* failed: the failing operations, by number
mvars == <<root, hist, outs, group, failed>>

Mutators == {"pb", "pf", "s", "missing", "directory"}
\* the two things a failing operation may leave
Left(op, r) == IF op[1] \in Mutators THEN {r, None} ELSE {r}
Memoryless == {"new", "missing"}        \* do not need memory

MInit == Init /\ group \in Groups /\ failed = 0
\* "D": deserialising into an object that holds data
Do2(op, r) == IF op[1] # "D" THEN Do(op, r)
              ELSE LET T == Types[Data[op[2]][1]]
                       f == IF r = None THEN {"kInvalidStructuredData"} ELSE Fit(T, r)
                   IN <<r, f, 0, 0, IF f = Ok THEN Load(T, r, Data[op[2]][2]) ELSE None>>
Op(op) == /\ LET r == Do2(op, root) IN root' = r[1] /\ outs' = Append(outs, r)
          /\ hist' = Append(hist, op) /\ UNCHANGED <<group, failed>>
Refused(op) == /\ failed = 0 /\ Len(hist) = 1
            /\ \E r \in Left(op, root) : root' = r /\ outs' = Append(outs, <<r, {"kException"}, 0, 0, None>>)
            /\ hist' = Append(hist, op) /\ failed' = Len(hist) + 1 /\ UNCHANGED group
MNext == Len(hist) < 3 /\ \E op \in group[Len(hist) + 1] : Op(op) \/ Refused(op)
MSpec == MInit /\ [][MNext]_mvars

\* the document is empty or the last thing that was put into it by an operation that did not fail
Sound == LET src == {i \in 1..Len(hist) : Source(i) /\ i # failed} IN
         \/ root = None
         \/ src # {} /\ LET i == CHOOSE j \in src : \A m \in src : m <= j IN root = outs[i][1]
Watchers == [][(hist' # hist /\ hist'[Len(hist')][1] \notin (Mutators \cup {"new"})) => root' = root]_mvars
\* after a failure, the same operation gives what it would have given, or the document is empty
Emitted3 == Len(hist) = 3 => PrintT(<<"V", ToJson(<<hist, failed, outs>>)>>)
===============================================================================
