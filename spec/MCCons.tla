------------------------------- MODULE MCCons -------------------------------
(* The design of building a checked collection, an element at a time, failing at the first that is *)
(* already there, against: fails iff some key is listed twice.                                     *)
EXTENDS ConsAbs, Json
CONSTANTS Keys, MaxLen
VARIABLES xs, map, crash
vars == <<xs, map, crash>>
Init == xs = <<>> /\ map = [x \in {} |-> 0] /\ crash = FALSE
Insert(k) == /\ xs' = Append(xs, <<k, Len(xs) + 7>>)
             /\ crash' = (crash \/ k \in DOMAIN map)
             /\ map' = IF crash' THEN map ELSE (k :> Len(xs) + 7) @@ map
Next == Len(xs) < MaxLen /\ \E k \in Keys : Insert(k)
Spec == Init /\ [][Next]_vars
Same == /\ crash = ~NoDup([i \in 1..Len(xs) |-> xs[i][1]])
        /\ ~crash => {<<k, map[k]>> : k \in DOMAIN map} = ToSet(xs)
Emit == PrintT(ToJson(xs'))
=============================================================================
