------------------------------ MODULE SynCode ------------------------------
(***************************************************************************)
(* Tokens made of punctuation are named by the names of their characters,   *)
(* one after the other.  Two different runs of characters must not get the  *)
(* same name.  Two runs are spelled side by side; what one is ahead of the  *)
(* other is all that matters (Sardinas and Patterson), so the search over   *)
(* runs of all lengths is finite.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
Table == ndJsonDeserialize(IOEnv.TABLE)[1].names
VARIABLE ahead
Cut(xs, n) == SubSeq(xs, n + 1, Len(xs))
Start == <<-1>>
Init == ahead = Start
Next == \/ /\ ahead = Start
           \* two names at the same place
           /\ \E i, j \in 1..Len(Table) : i # j /\ IsPrefix(Table[i], Table[j]) /\ ahead' = Cut(Table[j], Len(Table[i]))
        \/ /\ ahead # Start
           \* the one behind goes on with any name that fits
           /\ \E k \in 1..Len(Table) :
                \/ IsPrefix(Table[k], ahead) /\ ahead' = Cut(ahead, Len(Table[k]))
                \/ IsPrefix(ahead, Table[k]) /\ ahead' = Cut(Table[k], Len(ahead))
Spec == (Init /\ [][Next]_ahead)
Apart == ahead # <<>>
=============================================================================
