------------------------------- MODULE ConsAbs -------------------------------
(* C27: checked constructors. Large numbers are their bytes, most significant first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
LexCmp(x, y) == LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
                    off == {i \in 1..n : x[i] # y[i]}
                    i == CHOOSE k \in off : \A m \in off : k <= m
                IN  IF off # {} THEN (IF x[i] < y[i] THEN -1 ELSE 1)
                    ELSE IF Len(x) = Len(y) THEN 0 ELSE IF Len(x) < Len(y) THEN -1 ELSE 1
NameOk(t) == t # <<>>
\* where a text was last put, 0 if nowhere
LastAt(ts, t) == LET at == {i \in 1..Len(ts) : ts[i] = t}
                 IN  IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i
NoDup(ks) == Cardinality(ToSet(ks)) = Len(ks)
Fits32(bs) == bs[1] = 0 /\ bs[2] = 0 /\ bs[3] = 0 /\ bs[4] = 0
AllOnes == <<0, 0, 0, 0, 255, 255, 255, 255>>
----------------------------------------------------------------------------
(* Names of characters: a table of <<character, name>>.                     *)
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Punct(c) == (c >= 33 /\ c <= 47) \/ (c >= 58 /\ c <= 64) \/ (c >= 91 /\ c <= 96) \/ (c >= 123 /\ c <= 126)
\* _ - , ; : ! ? . ( ) [ ] { } * / & # % ^ + < = > | ~ ` $ @
Documented == {95, 45, 44, 59, 58, 33, 63, 46, 40, 41, 91, 93, 123, 125, 42, 47, 38, 35, 37, 94, 43, 60, 61, 62,
               124, 126, 96, 36, 64}
TableOk(tab) == /\ NoDup([i \in 1..Len(tab) |-> tab[i][1]])
                /\ NoDup([i \in 1..Len(tab) |-> tab[i][2]])
                /\ \A i \in 1..Len(tab) : /\ tab[i][2] # <<>>
                                          /\ \A k \in 1..Len(tab[i][2]) : Letter(tab[i][2][k])
                                          /\ Punct(tab[i][1]) \/ tab[i][1] > 127
                /\ Documented \subseteq {tab[i][1] : i \in 1..Len(tab)}
=============================================================================
