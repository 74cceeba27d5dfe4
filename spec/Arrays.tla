------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Two arrays as sequences of values; 0 is the value of an element made    *)
(* without an initial value. An operation is <<name, array, x, v>>.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Sampling
CONSTANTS Fills,   \* numbers of elements a history starts with
          Ops,     \* names of the operations used
          Room,    \* number of elements from which arrays are not copied
          Depth    \* operations in a history

Zeros(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 0]
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Resize(s, n, v) == IF n <= Len(s) THEN Take(s, n) ELSE s \o [i \in 1..(n - Len(s)) |-> v]
Insert(s, i, v) == IF i >= Len(s) THEN Append(s \o Zeros(i - Len(s)), v) ELSE Append(Take(s, i), v) \o SubSeq(s, i + 1, Len(s))
Delete(s, i) == IF i >= Len(s) THEN s ELSE Take(s, i) \o SubSeq(s, i + 2, Len(s))
First(s, v) == LET p == {i \in 1..Len(s) : s[i] = v} IN IF p = {} THEN -1 ELSE (CHOOSE i \in p : \A j \in p : i <= j) - 1

\* <<result, array 1, array 2>>
Do(op, a) ==
  LET m == op[2]
      o == 3 - m
      s == a[m]
      put(t) == <<0, [a EXCEPT ![m] = t]>>
  IN CASE op[1] \in {"app", "appm"} -> <<Len(s), [a EXCEPT ![m] = Append(s, op[4])]>>
       [] op[1] = "appd" -> <<Len(s), [a EXCEPT ![m] = Append(s, 0)]>>
       [] op[1] \in {"ins", "insm"} -> put(Insert(s, op[3], op[4]))
       [] op[1] = "rem" -> put(Delete(s, op[3]))
       [] op[1] = "reml" -> put(Delete(s, IF s = <<>> THEN 0 ELSE Len(s) - 1))
       [] op[1] = "set" -> put(Resize(s, op[3], 0))
       [] op[1] = "seti" -> put(Resize(s, op[3], op[4]))
       [] op[1] = "rsv" -> put(s)
       [] op[1] \in {"clear", "purge", "new"} -> put(<<>>)
       [] op[1] = "copy" -> put(a[o])
       [] op[1] = "move" -> <<0, [a EXCEPT ![m] = a[o], ![o] = <<>>]>>
       [] op[1] = "write" -> put(IF op[3] < Len(s) THEN [s EXCEPT ![op[3] + 1] = op[4]] ELSE s)
       [] op[1] = "find" -> <<First(s, op[4]), a>>
       [] op[1] = "eq" -> <<IF a[1] = a[2] THEN 1 ELSE 0, a>>
       [] op[1] = "fill" -> put(s \o [i \in 1..op[3] |-> i])

VARIABLES a, hist, outs,
          room   \* numbers of elements for which the arrays are known to have storage
vars == <<a, hist, outs, room>>
N(m) == Len(a[m])
\* the places that matter: the ends, the middle, around the end, and beyond
Near(m) == {0, 1, N(m) \div 2, N(m) - 1, N(m), N(m) + 1, N(m) + 5} \cap 0..Room
V == 10 + Len(hist)
Args(name, m) ==
  CASE name \in {"ins", "insm"} -> {<<x, V>> : x \in Near(m)}
    [] name = "rem" -> {<<x, 0>> : x \in Near(m)}
    [] name = "write" -> {<<x, V>> : x \in Near(m) \cap 0..(N(m) - 1)}
    [] name \in {"set", "seti"} -> {<<x, V>> : x \in {0, N(m) - 1, N(m), N(m) + 1, N(m) + 4, 9} \cap 0..Room}
    [] name = "rsv" -> {<<x, 0>> : x \in {0, N(m), N(m) + 1, 10}}
    [] name = "new" -> {<<0, 0>>, <<3, 0>>}
    [] name = "find" -> {<<0, v>> : v \in {0, 1, V - 1, 99}}
    [] OTHER -> {<<0, V>>}
Max2(x, y) == IF x > y THEN x ELSE y
\* Elements stay where they are as long as the storage suffices, and storage that was reserved or used is kept until the array is purged.
Fresh == {"new", "copy", "move"}
Stays(op, r) == op[1] \notin Fresh \cup {"purge"} /\ Len(r[2][op[2]]) <= room[op[2]] /\ (op[1] = "rsv" => op[3] <= room[op[2]])
Storage(op, r) ==
  LET m == op[2]
      n == Len(r[2][m])
      p == [room EXCEPT ![m] = IF op[1] = "purge" THEN 0 ELSE IF op[1] \in Fresh THEN n ELSE Max2(n, IF op[1] = "rsv" THEN Max2(room[m], op[3]) ELSE room[m])]
  IN IF op[1] = "move" THEN [p EXCEPT ![3 - m] = 0] ELSE p
\* The elements that an operation takes away at the end are destroyed in reverse order.
Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Gone(op) == LET s == a[op[2]] IN
  IF op[1] \in {"clear", "purge"} THEN Backwards(s)
  ELSE IF op[1] \in {"set", "seti"} /\ op[3] < Len(s) THEN Backwards(SubSeq(s, op[3] + 1, Len(s)))
  ELSE IF op[1] = "reml" /\ s /= <<>> THEN <<s[Len(s)]>> ELSE <<>>
Step(op) == LET r == Do(op, a) IN /\ a' = r[2] /\ hist' = Append(hist, op) /\ room' = Storage(op, r)
                                  /\ outs' = Append(outs, <<r[1], r[2], Stays(op, r), Gone(op)>>)
Init == a = <<<<>>, <<>>>> /\ hist = <<>> /\ outs = <<>> /\ room = <<0, 0>>
Next == /\ Len(hist) < Depth
        /\ IF hist = <<>> THEN \E n \in Fills, m \in {1} : Step(<<"fill", m, n, 0>>)
           ELSE \E name \in AFew(Ops), m \in 1..2 : \E x \in AFew(Args(name, m)) : (N(m) < Room \/ name \notin {"copy"}) /\ Step(<<name, m, x[1], x[2]>>)
Spec == Init /\ [][Next]_vars

\* laws that the definitions have to satisfy
Laws ==
  \A m \in 1..2 : \A i \in Near(m) :
    /\ Delete(Insert(a[m], i, -99), i) = a[m] \o Zeros(i - N(m))
    /\ Len(Insert(a[m], i, -99)) = (IF i > N(m) THEN i ELSE N(m)) + 1
    /\ First(Insert(a[m], i, -99), -99) = i
    /\ Resize(Resize(a[m], N(m) + i, 7), N(m), 8) = a[m]
Roomy == \A m \in 1..2 : room[m] >= Len(a[m])
Emitted == Len(hist) = Depth => PrintT(<<"V", ToJson(<<hist, outs>>)>>)
=============================================================================
