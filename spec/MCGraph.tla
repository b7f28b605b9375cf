------------------------------- MODULE MCGraph -------------------------------
(* Every graph over some nodes, keys or not: the definitions for C08 and C09 hang together (a   *)
(* graph has a valid order iff it has no cycle), and one test per graph.                         *)
EXTENDS TopoAbs, Json, FiniteSetsExt
CONSTANT N
VARIABLES g, stage
Elems == 1..N
Sorted(s) == SetToSortSeq(s, <)
Init == /\ Start(<<>>, {})
        /\ stage = 0 /\ g = <<>>
\* built up one node at a time: not a key, or a key with some neighbors
Next == /\ stage < N /\ stage' = stage + 1
        /\ \/ g' = g
           \/ \E ns \in SUBSET Elems : g' = Append(g, <<stage + 1, Sorted(ns)>>)
        /\ UNCHANGED tvars
Spec == Init /\ [][Next]_<<tvars, g, stage>>
Consistent == stage = N =>
  /\ Cyclic(g) = (\E x \in Nodes(g) : OnCycle(Nbrs(g), x))
  /\ (N <= 3 => (Cyclic(g) = (\A p \in {q \in [1..Cardinality(Nodes(g)) -> Nodes(g)] : TRUE} : ~ValidOrder(g, p))))
Emit == IF stage' = N THEN PrintT(ToJson([graph |-> g'])) ELSE TRUE
=============================================================================
