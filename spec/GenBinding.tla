----------------------------- MODULE GenBinding -----------------------------
(***************************************************************************)
(* Enumerates documents around a type - fitting ones, ones with a member   *)
(* left out, of another kind, null, in another order, surplus members -    *)
(* and data of a type, and checks the laws of the binding on them.         *)
(***************************************************************************)
EXTENDS Binding, TLC, Json
CONSTANTS Types,      \* the types of the program
          Wide        \* how many variations of nested documents are combined
VARIABLES k, what, x

Some(S, n) == IF Cardinality(S) <= n THEN S ELSE {SetToSeq(S)[i * (Cardinality(S) \div n)] : i \in 1..n}

Leaf(T) == CASE T[1] = "str" -> {<<"s", <<>>>>, <<"s", <<97, 34>>>>}
             [] T[1] = "num" -> {<<"n", <<48>>>>, <<"n", <<45, 50, 46, 53>>>>}
             [] T[1] = "bool" -> {<<"b", 0>>, <<"b", 1>>}
             [] T[1] = "null" -> {<<"z">>}
Wrong(T) == IF T[1] = "str" THEN {<<"n", <<49>>>>, <<"z">>, <<"a", <<>>>>, <<"b", 1>>}
            ELSE IF T[1] = "num" THEN {<<"s", <<49>>>>, <<"z">>, <<"o", <<>>>>, <<"b", 0>>}
            ELSE IF T[1] = "bool" THEN {<<"s", <<>>>>, <<"z">>, <<"n", <<49>>>>, <<"a", <<>>>>}
            ELSE IF T[1] = "null" THEN {<<"s", <<>>>>, <<"n", <<48>>>>, <<"b", 0>>, <<"o", <<>>>>}
            ELSE IF T[1] = "arr" THEN {<<"o", <<>>>>, <<"z">>, <<"s", <<>>>>}
            ELSE {<<"a", <<>>>>, <<"z">>, <<"n", <<48>>>>}

Keys == <<<<>>, <<97>>, <<98, 99>>, <<195, 169>>>>
\* members of documents for fields from i on
RECURSIVE Docs(_), Members(_, _)
Docs(T) ==
  Wrong(T) \cup
  CASE T[1] \in {"str", "num", "bool", "null"} -> Leaf(T)
    [] T[1] = "arr" -> LET E == Some(Docs(T[2]), Wide) IN {<<"a", <<>>>>} \cup {<<"a", <<a>>>> : a \in E} \cup {<<"a", <<a, b>>>> : a \in E, b \in Some(E, 3)}
                       \cup {<<"a", <<a, b, b>>>> : a \in Some(E, 2), b \in Some(E, 4)}
    [] T[1] = "map" -> LET E == Some(Docs(T[2]), Wide)
                       IN {<<"o", <<>>>>} \cup {<<"o", <<<<Keys[1], a>>>>>> : a \in E} \cup {<<"o", <<<<Keys[4], a>>, <<Keys[2], b>>>>>> : a \in E, b \in Some(E, 3)}
                          \cup {<<"o", <<<<Keys[2], a>>, <<Keys[3], b>>, <<Keys[1], b>>>>>> : a \in Some(E, 2), b \in Some(E, 4)}
    [] T[1] = "rec" -> LET M == Members(T[2], 1) IN {<<"o", s>> : s \in M} \cup {<<"o", Reverse(s)>> : s \in Some(M, 20)}
                          \cup {<<"o", <<<<Keys[4], <<"z">>>>>> \o s \o <<<<<<120>>, <<"a", <<>>>>>>>>>> : s \in Some(M, 10)}
Members(F, i) ==
  IF i > Len(F) THEN {<<>>}
  ELSE LET rest == Some(Members(F, i + 1), Wide * Wide)
       IN IF F[i][1] = "emb" THEN {d[2] \o r : d \in {e \in Docs(F[i][3]) : e[1] = "o"}, r \in rest}
          ELSE rest \cup {<<<<F[i][2], d>>>> \o r : d \in Some(Docs(F[i][3]), Wide), r \in rest}

RECURSIVE Data(_), Fields(_, _)
Data(T) ==
  CASE T[1] \in {"str", "num", "bool", "null"} -> Leaf(T)
    [] T[1] = "arr" -> LET E == Some(Data(T[2]), Wide) IN {<<"a", <<>>>>} \cup {<<"a", <<a>>>> : a \in E} \cup {<<"a", <<a, b, a>>>> : a \in Some(E, 3), b \in Some(E, 3)}
    [] T[1] = "map" -> LET E == Some(Data(T[2]), Wide)
                       IN {<<"m", <<>>>>} \cup {<<"m", <<<<Keys[2], a>>>>>> : a \in E} \cup {<<"m", <<<<Keys[1], a>>, <<Keys[3], b>>, <<Keys[4], a>>>>>> : a \in Some(E, 3), b \in Some(E, 3)}
    [] T[1] = "rec" -> {<<"r", s>> : s \in Fields(T[2], 1)}
Fields(F, i) == IF i > Len(F) THEN {<<>>}
                ELSE LET rest == Some(Fields(F, i + 1), Wide * 2) IN {<<d>> \o r : d \in Some(Data(F[i][3]), Wide), r \in rest}

Init == \E t \in 1..Len(Types) :
          /\ k = t
          /\ \/ what = "doc" /\ x \in Docs(Types[t])
             \/ what = "data" /\ x \in Data(Types[t])
Next == FALSE /\ UNCHANGED <<k, what, x>>
Spec == Init /\ [][Next]_<<k, what, x>>

Ty == Types[k]
\* serialised data fits, and comes back equal; loading twice changes nothing more;
\* what is loaded is stored again as a document that fits
Laws ==
  /\ what = "data" => /\ Fit(Ty, Store(Ty, x)) = Ok
                      /\ Load(Ty, Store(Ty, x), Fresh(Ty)) = x
                      /\ Load(Ty, Store(Ty, x), x) = x
  /\ what = "doc" => /\ Fit(Ty, x) # {} /\ Fit(Ty, x) \subseteq {"kOk", "kNameNotPresent", "kInvalidValueType"}
                     /\ ("kOk" \in Fit(Ty, x)) => /\ Fit(Ty, x) = Ok
                                                 /\ LET v == Load(Ty, x, Fresh(Ty)) IN Load(Ty, x, v) = v /\ Load(Ty, Store(Ty, v), Fresh(Ty)) = v
Emitted == PrintT(<<"V", ToJson(<<k, what, x>>)>>)
=============================================================================
