----------------------------- MODULE SortedMap -----------------------------
(***************************************************************************)
(* Two maps and the elements that may be in one of them. An element is a   *)
(* number; its key is element \div 2, so that there are two elements per   *)
(* key. where[e] is 0 (nowhere), 1 or 2 (in that map) or 3 (destroyed).    *)
(* A tree is <<>> or <<left, element, right>>.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Key(e) == e \div 2
In(w, m) == {e \in DOMAIN w : w[e] = m}
Holder(w, m, k) == LET s == {e \in In(w, m) : Key(e) = k} IN IF s = {} THEN -1 ELSE CHOOSE e \in s : TRUE

Set(w, S, v) == [e \in DOMAIN w |-> IF e \in S THEN v ELSE w[e]]

\* <<result, where afterwards>>. Results: 1/0 for yes/no, an element or -1 for none
Apply(w, op) ==
  CASE op[1] \in {"ins", "rsv"} ->
         IF Holder(w, op[2], Key(op[3])) # -1 THEN <<0, w>> ELSE <<1, [w EXCEPT ![op[3]] = op[2]]>>
    [] op[1] = "rep" -> LET h == Holder(w, op[2], Key(op[3]))
                        IN IF h = op[3] THEN <<-1, w>>
                           ELSE <<h, [(IF h = -1 THEN w ELSE [w EXCEPT ![h] = 0]) EXCEPT ![op[3]] = op[2]]>>
    [] op[1] = "rem" -> <<0, [w EXCEPT ![op[3]] = 0]>>
    [] op[1] = "det" -> <<0, [w EXCEPT ![op[3]] = 0]>>
    [] op[1] = "del" -> <<0, [w EXCEPT ![op[3]] = 3]>>
    [] op[1] = "make" -> <<0, [w EXCEPT ![op[3]] = 0]>>
    [] op[1] = "find" -> <<Holder(w, op[2], op[3]), w>>
    [] op[1] \in {"purge", "destroy"} -> <<0, Set(w, In(w, op[2]), 3)>>
    [] op[1] = "clear" -> <<0, Set(w, In(w, op[2]), 0)>>

\* operations that a user may perform
Legal(w, op) ==
  CASE op[1] \in {"ins", "rsv", "rep"} -> w[op[3]] # 3
    [] op[1] = "rem" -> w[op[3]] = op[2]
    [] op[1] \in {"det", "del"} -> w[op[3]] # 3
    [] op[1] = "make" -> w[op[3]] = 3
    [] OTHER -> TRUE

RECURSIVE InOrder(_), Height(_), Balanced(_)
InOrder(t) == IF t = <<>> THEN <<>> ELSE InOrder(t[1]) \o <<t[2]>> \o InOrder(t[3])
MaxOf(a, b) == IF a > b THEN a ELSE b
Height(t) == IF t = <<>> THEN 0 ELSE 1 + MaxOf(Height(t[1]), Height(t[3]))
Balanced(t) == t = <<>> \/ (/\ Height(t[1]) - Height(t[3]) \in {-1, 0, 1}
                            /\ Balanced(t[1]) /\ Balanced(t[3]))
Ordered(s) == \A i \in 1..(Len(s) - 1) : Key(s[i]) < Key(s[i + 1])
=============================================================================
