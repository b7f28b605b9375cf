------------------------------- MODULE UniqAbs -------------------------------
(* C20: makers of identifiers. What one maker made is all different; makers do not matter to each *)
(* other. The design is a counter per maker.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Makers, MaxMade
VARIABLES count, made, hist
vars == <<count, made, hist>>
Init == count = [m \in Makers |-> 0] /\ made = [m \in Makers |-> {}] /\ hist = <<>>
Mk(m) == /\ Cardinality(made[m]) < MaxMade
         /\ count[m] \notin made[m]
         /\ made' = [made EXCEPT ![m] = @ \cup {count[m]}]
         /\ count' = [count EXCEPT ![m] = @ + 1]
         /\ hist' = Append(hist, m)
Next == \E m \in Makers : Mk(m)
Spec == Init /\ [][Next]_vars
View == <<count, made>>
NeverRepeats == \A m \in Makers : Cardinality(made[m]) = count[m]
NeverStuck == \A m \in Makers : Cardinality(made[m]) < MaxMade => ENABLED Mk(m)
Emit == PrintT(ToJson(hist'))
=============================================================================
