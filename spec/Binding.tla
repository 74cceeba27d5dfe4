------------------------------- MODULE Binding -------------------------------
(***************************************************************************)
(* How structures of a program are bound to documents.                     *)
(*                                                                         *)
(* Types:  <<"str">> <<"num">> <<"bool">> <<"null">> <<"arr",T>> <<"map",T>> *)
(*         <<"rec", fields>>, a field being <<how, name bytes, T, default>> *)
(*         with how = "req" (required), "opt" (optional) or "emb" (bound to *)
(*         the same document object, no name of its own).                  *)
(* Documents: the values of JsonText.                                      *)
(* Data:   <<"s",bytes>> <<"n",literal>> <<"b",0 or 1>> <<"z">>             *)
(*         <<"a",seq>>  <<"m",seq of <<key,data>> ordered by key>>          *)
(*         <<"r",seq of the fields' data>>                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Kind(T) == CASE T[1] = "str" -> "s" [] T[1] = "num" -> "n" [] T[1] = "bool" -> "b" [] T[1] = "null" -> "z" [] OTHER -> T[1]

Index(doc, name) == IF \E i \in 1..Len(doc[2]) : doc[2][i][1] = name
                    THEN CHOOSE i \in 1..Len(doc[2]) : doc[2][i][1] = name ELSE 0

Ok  == {"kOk"}
Bad == {"kInvalidValueType"}

\* The statuses that validating a document against a type may report. There is
\* more than one only where a map has several members that do not fit: maps
\* have no declaration order.
RECURSIVE Fit(_, _), FitFields(_, _, _), FitSeq(_, _)
Fit(T, d) ==
  CASE T[1] \in {"str", "num", "bool", "null"} -> IF d[1] = Kind(T) THEN Ok ELSE Bad
    [] T[1] = "arr" -> IF d[1] = "a" THEN FitSeq(T[2], d[2]) ELSE Bad
    [] T[1] = "map" -> IF d[1] # "o" THEN Bad
                       ELSE LET all == {Fit(T[2], d[2][i][2]) : i \in 1..Len(d[2])}
                                bad == UNION {s \in all : s # Ok}
                            IN IF bad = {} THEN Ok ELSE bad
    [] T[1] = "rec" -> FitFields(T[2], d, 1)
FitSeq(T, s) == \* the first element that does not fit is reported
  LET bad == SelectInSeq(s, LAMBDA x : Fit(T, x) # Ok) IN IF bad = 0 THEN Ok ELSE Fit(T, s[bad])
FitFields(F, d, i) ==
  IF i > Len(F) THEN Ok
  ELSE LET f == F[i]
           j == Index(d, f[2])
           r == IF f[1] = "emb" THEN Fit(f[3], d)
                ELSE IF d[1] # "o" THEN Bad
                ELSE IF j = 0 THEN (IF f[1] = "opt" THEN Ok ELSE {"kNameNotPresent"})
                ELSE Fit(f[3], d[2][j][2])
       IN IF r = Ok THEN FitFields(F, d, i + 1) ELSE r

\* What an object holds that has just been made
RECURSIVE Fresh(_)
Fresh(T) == CASE T[1] = "str" -> <<"s", <<>>>> [] T[1] = "num" -> <<"n", <<48>>>> [] T[1] = "bool" -> <<"b", 0>> [] T[1] = "null" -> <<"z">>
              [] T[1] = "arr" -> <<"a", <<>>>> [] T[1] = "map" -> <<"m", <<>>>>
              [] T[1] = "rec" -> <<"r", [i \in 1..Len(T[2]) |-> T[2][i][4]]>>

\* order of keys: bytewise
Less(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                  same == SubSeq(a, 1, n) = SubSeq(b, 1, n)
                  j == CHOOSE j \in 1..n : a[j] # b[j] /\ \A k \in 1..(j - 1) : a[k] = b[k]
              IN IF same THEN Len(a) < Len(b) ELSE a[j] < b[j]
Put(m, k, v) ==
  LET at == {i \in 1..Len(m) : m[i][1] = k}
      n  == Cardinality({i \in 1..Len(m) : Less(m[i][1], k)})
  IN IF at # {} THEN [m EXCEPT ![CHOOSE i \in at : TRUE] = <<k, v>>]
     ELSE SubSeq(m, 1, n) \o <<<<k, v>>>> \o SubSeq(m, n + 1, Len(m))
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Get(m, k) == m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]

\* The data after a successful deserialisation of d into an object that held old
RECURSIVE Load(_, _, _), LoadMap(_, _, _)
Load(T, d, old) ==
  CASE T[1] \in {"str", "num", "bool", "null"} -> d
    [] T[1] = "arr" -> <<"a", [i \in 1..Len(d[2]) |-> Load(T[2], d[2][i], Fresh(T[2]))]>>
    [] T[1] = "map" -> <<"m", LoadMap(T[2], d[2], old[2])>>
    [] T[1] = "rec" -> <<"r", [i \in 1..Len(T[2]) |->
                          LET f == T[2][i]
                              j == Index(d, f[2])
                          IN IF f[1] = "emb" THEN Load(f[3], d, old[2][i])
                             ELSE IF j = 0 THEN old[2][i]
                             ELSE Load(f[3], d[2][j][2], old[2][i])]>>
LoadMap(T, members, m) ==
  FoldLeft(LAMBDA acc, x : Put(acc, x[1], Load(T, x[2], IF Has(acc, x[1]) THEN Get(acc, x[1]) ELSE Fresh(T))), m, members)

\* The document that serialising data gives
RECURSIVE Store(_, _), StoreFields(_, _, _)
Store(T, v) ==
  CASE T[1] \in {"str", "num", "bool", "null"} -> v
    [] T[1] = "arr" -> <<"a", [i \in 1..Len(v[2]) |-> Store(T[2], v[2][i])]>>
    [] T[1] = "map" -> <<"o", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Store(T[2], v[2][i][2])>>]>>
    [] T[1] = "rec" -> <<"o", StoreFields(T[2], v[2], 1)>>
StoreFields(F, vs, i) ==
  IF i > Len(F) THEN <<>>
  ELSE (IF F[i][1] = "emb" THEN Store(F[i][3], vs[i])[2] ELSE <<<<F[i][2], Store(F[i][3], vs[i])>>>>) \o StoreFields(F, vs, i + 1)

\* Serialising onto a value d that exists: the data take the place of its own
\* if they are of its kind, otherwise it stays as it is (not for structures,
\* whose members are added to those of the object).
KindOf(T) == IF T[1] \in {"map", "rec"} THEN "o" ELSE IF T[1] = "arr" THEN "a" ELSE Kind(T)
Onto(T, d, v) == IF d[1] = KindOf(T) THEN <<"kOk", Store(T, v)>> ELSE <<"kInvalidValueType", d>>
=============================================================================
