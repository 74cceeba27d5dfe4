------------------------------- MODULE GenMap -------------------------------
(***************************************************************************)
(* A height-balanced search tree with insertion and removal, refining a    *)
(* map of SortedMap (one map, first element of each key). Its state graph  *)
(* visits every balanced tree over the keys, with a shortest history.      *)
(***************************************************************************)
EXTENDS SortedMap, TLC, Json
CONSTANT Keys
N(l, e, r) == <<l, e, r>>
RotL(t) == N(N(t[1], t[2], t[3][1]), t[3][2], t[3][3])
RotR(t) == N(t[1][1], t[1][2], N(t[1][3], t[2], t[3]))
Fix(t) ==
  LET b == Height(t[3]) - Height(t[1]) IN
  IF b = 2 THEN IF Height(t[3][3]) >= Height(t[3][1]) THEN RotL(t) ELSE RotL(N(t[1], t[2], RotR(t[3])))
  ELSE IF b = -2 THEN IF Height(t[1][1]) >= Height(t[1][3]) THEN RotR(t) ELSE RotR(N(RotL(t[1]), t[2], t[3]))
  ELSE t
RECURSIVE Grow(_, _), Cut(_, _), FirstOf(_)
Grow(t, e) == IF t = <<>> THEN N(<<>>, e, <<>>)
                ELSE IF Key(e) < Key(t[2]) THEN Fix(N(Grow(t[1], e), t[2], t[3]))
                ELSE IF Key(e) > Key(t[2]) THEN Fix(N(t[1], t[2], Grow(t[3], e)))
                ELSE t
FirstOf(t) == IF t[1] = <<>> THEN t[2] ELSE FirstOf(t[1])
Cut(t, e) == IF t = <<>> THEN t
                ELSE IF Key(e) < Key(t[2]) THEN Fix(N(Cut(t[1], e), t[2], t[3]))
                ELSE IF Key(e) > Key(t[2]) THEN Fix(N(t[1], t[2], Cut(t[3], e)))
                ELSE IF t[1] = <<>> THEN t[3]
                ELSE IF t[3] = <<>> THEN t[1]
                ELSE LET f == FirstOf(t[3]) IN Fix(N(t[1], f, Cut(t[3], f)))

VARIABLES tree, where, hist
vars == <<tree, where, hist>>
Elems == {2 * k : k \in Keys}
Init == tree = <<>> /\ where = [e \in Elems |-> 0] /\ hist = <<>>
Next == \E e \in Elems :
          \/ where[e] = 0 /\ tree' = Grow(tree, e) /\ where' = Apply(where, <<"ins", 1, e>>)[2] /\ hist' = Append(hist, <<"ins", 1, e>>)
          \/ where[e] = 1 /\ tree' = Cut(tree, e) /\ where' = Apply(where, <<"rem", 1, e>>)[2] /\ hist' = Append(hist, <<"rem", 1, e>>)
Spec == Init /\ [][Next]_vars
View == <<tree, where>>
Refines == /\ ToSet(InOrder(tree)) = In(where, 1) /\ Ordered(InOrder(tree)) /\ Balanced(tree)
Emitted == PrintT(<<"V", ToJson(hist)>>)
=============================================================================
