------------------------------- MODULE MCRule -------------------------------
(* The design: going through the parts of a rule with the modifier and label met so far, giving up *)
(* where there is one already or the part is none of those an element may have; against GenAbs.    *)
(* Rules are built bottom up: a state has a rule made of those before.                             *)
EXTENDS GenAbs, Json
CONSTANTS Depth, Wide
VARIABLES rule, d
vars == <<made, rule, d>>
Leaves == {[k |-> "node"], [k |-> "token"]}
Over(S) == {[k |-> k, on |-> <<r>>] : k \in {"opt", "rep", "label"}, r \in S}
Pairs(S, T) == {[k |-> k, on |-> <<r, s>>] : k \in {"seq", "alt"}, r \in S, s \in T}
Small == Leaves \cup Over(Leaves) \cup Pairs(Leaves, Leaves)
Init == Start /\ rule \in Leaves /\ d = 1
Grow == /\ d < Depth
        /\ d' = d + 1
        /\ rule' \in Over({rule}) \cup Pairs({rule}, Small) \cup Pairs(Small, {rule})
                     \cup (IF Wide THEN {[k |-> k, on |-> <<r, rule, s>>] : k \in {"seq", "alt"}, r, s \in Leaves} ELSE {})
        /\ UNCHANGED made
Spec == Init /\ [][Grow]_vars
\* TRUE if it goes through
RECURSIVE Walk(_, _, _)
Walk(r, mod, label) == CASE Leaf(r) -> TRUE
                         [] r.k = "label" -> ~label /\ Walk(r.on[1], mod, TRUE)
                         [] r.k \in {"opt", "rep"} -> ~mod /\ Walk(r.on[1], TRUE, label)
                         [] OTHER -> FALSE
Goes(r) == IF r.k = "alt" THEN LET f == r.on[1] IN Leaf(f) /\ \A i \in 1..Len(r.on) : r.on[i].k = f.k
           ELSE IF r.k = "seq" THEN \A i \in 1..Len(r.on) : Walk(r.on[i], FALSE, FALSE)
           ELSE Walk(r, FALSE, FALSE)
Same == Goes(rule) = Supported(rule)
Emit == PrintT(ToJson([rule |-> rule', ok |-> Supported(rule')]))
=============================================================================
