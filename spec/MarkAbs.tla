------------------------------- MODULE MarkAbs -------------------------------
(* C30. Markers stand for something begun: a construct of a parser ("P") or a stretch of a string   *)
(* ("S"). They are numbered as they are made; live[i] says whether the i-th is still to be given    *)
(* back. Constructs are given back last in first out.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES kind, live
mvars == <<kind, live>>
Start == kind = <<>> /\ live = <<>>
Fresh == kind' = <<>> /\ live' = <<>>
Ids == 1..Len(kind)
\* the construct that may be given back now
Top(m) == kind[m] = "P" /\ \A j \in Ids : kind[j] = "P" /\ live[j] => j <= m
Can(m) == m \in Ids /\ live[m] /\ (kind[m] = "S" \/ Top(m))
Make(k) == kind' = Append(kind, k) /\ live' = Append(live, TRUE)
Gone(m) == kind' = kind /\ live' = [live EXCEPT ![m] = FALSE]
\* what dropping marker m without giving it back does
Noticed(m, debug) == kind[m] = "P" \/ debug
=============================================================================
