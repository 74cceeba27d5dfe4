------------------------------ MODULE Document ------------------------------
(***************************************************************************)
(* The life of one document object under parsing, serialising, validating, *)
(* deserialising, writing and being replaced by a new object.              *)
(***************************************************************************)
EXTENDS JsonText, Binding, TLC, Json, Sampling
CONSTANTS Buffers,      \* buffers that are parsed
          Files,        \* contents of files that are parsed
          Types, Data,  \* types, and data <<type, data>> that is serialised
          MaxFile,      \* largest file in bytes
          Depth         \* operations in a history

None == <<"none">>
Reads  == [i \in 1..Len(Buffers) |-> ReadBuffer(Buffers[i])]
FReads == [i \in 1..Len(Files) |-> IF Len(Files[i]) > MaxFile THEN <<"KFileTooLarge", 0, 0, None>> ELSE ReadBuffer(Append(Files[i], 0))]
Stored == [i \in 1..Len(Data) |-> Store(Types[Data[i][1]], Data[i][2])]

Ops == {<<"pb", i>> : i \in 1..Len(Buffers)} \cup {<<"pf", i>> : i \in 1..Len(Files)} \cup {<<"missing", 0>>, <<"directory", 0>>}
       \cup {<<"s", i>> : i \in 1..Len(Data)} \cup {<<"v", i>> : i \in 1..Len(Types)} \cup {<<"d", i>> : i \in 1..Len(Types)}
       \cup {<<"w", 0>>, <<"wx", 0>>, <<"new", 0>>}

\* the text was looked at
Looked(r) == r[1] \notin {"kTextBufferContentsInvalid", "kUnterminatedTextBuffer", "KFileTooLarge"}
Parsed(r, root) == IF Looked(r) THEN r[4] ELSE root

\* <<root afterwards, statuses that may be reported, line, column, data delivered>>
Do(op, root) ==
  CASE op[1] = "pb" -> LET r == Reads[op[2]] IN <<Parsed(r, root), {r[1]}, r[2], r[3], None>>
    [] op[1] = "pf" -> LET r == FReads[op[2]] IN <<Parsed(r, root), {r[1]}, r[2], r[3], None>>
    [] op[1] = "missing" -> <<root, {"KFileOpenError"}, 0, 0, None>>
    [] op[1] = "directory" -> <<root, {"KFileOpenError", "KFileReadError", "KFileTooLarge", "kTextBufferContentsInvalid"}, 0, 0, None>>
    [] op[1] = "s" -> <<Stored[op[2]], Ok, 0, 0, None>>
    [] op[1] = "v" -> <<root, IF root = None THEN {"kInvalidStructuredData"} ELSE Fit(Types[op[2]], root), 0, 0, None>>
    [] op[1] = "d" -> LET T == Types[op[2]]
                          f == IF root = None THEN {"kInvalidStructuredData"} ELSE Fit(T, root)
                      IN <<root, f, 0, 0, IF f = Ok THEN Load(T, root, Fresh(T)) ELSE None>>
    [] op[1] = "w" -> <<root, IF root = None THEN {"kInvalidStructuredData"} ELSE Ok, 0, 0, None>>
    [] op[1] = "wx" -> <<root, IF root = None THEN {"kInvalidStructuredData"} ELSE {"KFileOpenError"}, 0, 0, None>>
    [] op[1] = "new" -> <<None, Ok, 0, 0, None>>

VARIABLES root, hist, outs
vars == <<root, hist, outs>>
Init == root = None /\ hist = <<>> /\ outs = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in AFew(Ops) : LET r == Do(op, root) IN root' = r[1] /\ hist' = Append(hist, op) /\ outs' = Append(outs, r)
Spec == Init /\ [][Next]_vars

\* the last operation that put something there, or emptied it
Source(i) == hist[i][1] \in {"s", "new"} \/ (hist[i][1] = "pb" /\ Looked(Reads[hist[i][2]])) \/ (hist[i][1] = "pf" /\ Looked(FReads[hist[i][2]]))
LastWins ==
  LET src == {i \in 1..Len(hist) : Source(i)} IN
  IF src = {} THEN root = None
  ELSE LET i == CHOOSE j \in src : \A m \in src : m <= j
       IN root = CASE hist[i][1] = "s" -> Stored[hist[i][2]]
                   [] hist[i][1] = "new" -> None
                   [] hist[i][1] = "pb" -> Reads[hist[i][2]][4]
                   [] OTHER -> FReads[hist[i][2]][4]
Observers == [][(hist' # hist /\ hist'[Len(hist')][1] \in {"v", "d", "w", "wx", "missing", "directory"}) => root' = root]_vars
Emitted == Len(hist) = Depth => PrintT(<<"V", ToJson(<<hist, outs>>)>>)
=============================================================================
