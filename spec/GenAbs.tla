------------------------------- MODULE GenAbs -------------------------------
(***************************************************************************)
(* C31: making code from a grammar.                                        *)
(* A rule as written is a leaf ([k |-> "node"] or [k |-> "token"], or "alt *)
(* name": the name of a choice) or [k, on] with the parts it is made of:   *)
(* "opt", "rep", "label" of one part, "seq" and "alt" of several.          *)
(* `made` says which files each of the options made so far has given.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE made
Leaf(r) == r.k \in {"node", "token"}
\* the modifiers and labels on the way to what is modified, and that
RECURSIVE Coats(_)
Coats(r) == IF r.k \in {"opt", "rep", "label"} THEN <<r.k>> \o Coats(r.on[1]) ELSE <<>>
RECURSIVE Core(_)
Core(r) == IF r.k \in {"opt", "rep", "label"} THEN Core(r.on[1]) ELSE r
Count(xs, S) == Cardinality({i \in 1..Len(xs) : xs[i] \in S})
\* an element, labelled at most once, and optional or repeated at most once
Element(r) == Leaf(Core(r)) /\ Count(Coats(r), {"label"}) <= 1 /\ Count(Coats(r), {"opt", "rep"}) <= 1
Supported(r) == CASE r.k = "alt" -> (\A i \in 1..Len(r.on) : r.on[i].k = "node") \/ (\A i \in 1..Len(r.on) : r.on[i].k = "token")
                  [] r.k = "seq" -> \A i \in 1..Len(r.on) : Element(r.on[i])
                  [] OTHER -> Element(r)
----------------------------------------------------------------------------
None == [x \in {} |-> <<>>]
Start == made = None
\* the same options give the same files
Fits(id, files) == id \notin DOMAIN made \/ made[id] = files
Make(id, files) == made' = (id :> files) @@ made
=============================================================================
