------------------------------- MODULE MCChain -------------------------------
(* Exhaustive check of the chain-map design for small constants. *)
EXTENDS ChainLayers
CONSTANTS MaxStack
MCLists == {<<>>, <<<<1, 1>>, <<2, 1>>>>, <<<<1, 1>>, <<1, 2>>>>}
Bound == /\ Small
         /\ \A h \in Handles : Len(stacks[h]) <= MaxStack
View == <<layers, stacks>>
=============================================================================
