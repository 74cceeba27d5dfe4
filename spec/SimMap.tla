------------------------------- MODULE SimMap -------------------------------
(* Histories of two maps with all operations. *)
EXTENDS SortedMap, TLC, Json, Sampling
CONSTANTS Keys, Depth
VARIABLES where, hist
vars == <<where, hist>>
Elems == {2 * k : k \in Keys} \cup {2 * k + 1 : k \in Keys}
Ops == {<<o, m, e>> : o \in {"ins", "rsv", "rep", "rem"}, m \in 1..2, e \in Elems} \cup {<<o, 0, e>> : o \in {"det", "del", "make"}, e \in Elems}
       \cup {<<"find", m, k>> : m \in 1..2, k \in Keys} \cup {<<o, m, 0>> : o \in {"purge", "destroy", "clear"}, m \in 1..2}
Init == where = [e \in Elems |-> 0] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in AFew(Ops) : /\ Legal(where, op)
                           /\ (op[1] \in {"purge", "destroy", "clear"} => Cardinality(In(where, op[2])) >= 3)
                           /\ where' = Apply(where, op)[2] /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* at most one element per key in a map
Unique == \A m \in 1..2 : \A a, b \in In(where, m) : Key(a) = Key(b) => a = b
\* only destruction destroys, and only of what is in that map
Emitted == Len(hist) = Depth => PrintT(<<"V", ToJson(hist)>>)
=============================================================================
