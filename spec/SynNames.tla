------------------------------ MODULE SynNames ------------------------------
(* The names that the users of the generated code rely on, for a file of grammars. *)
EXTENDS SynAbs, Json, IOUtils
Gs == ndJsonDeserialize(IOEnv.GRAMMARS)
VARIABLE l
Names(g) == [tokens |-> [k \in 1..Len(g.tokens) |-> KindName(g, g.tokens[k])],
             fields |-> [k \in 1..Len(g.nodes) |-> [j \in 1..Len(g.nodes[k].fields) |-> FieldName(g, g.nodes[k].fields[j])]]]
Init == l = 0
Next == l < Len(Gs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Emit == PrintT(ToJson([n |-> l', names |-> Names(Gs[l'])]))
=============================================================================
