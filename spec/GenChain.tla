------------------------------- MODULE GenChain -------------------------------
(* One test per transition of the chain-map design: the shortest history to its source state, then *)
(* the transition with everything observable about it.                                             *)
EXTENDS MCChain, Json
VARIABLE hist
OpOf(r) == [f \in DOMAIN r \ {"obs"} |-> r[f]]
GInit == Init /\ hist = <<>>
GNext == Next /\ hist' = Append(hist, OpOf(last'))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == PrintT(ToJson([p |-> hist, t |-> last']))
=============================================================================
