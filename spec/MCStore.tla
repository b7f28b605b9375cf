------------------------------- MODULE MCStore -------------------------------
(* The design of the path store: a vector of paths and a map back, kept in step, against ids that *)
(* are one-to-one.                                                                                *)
EXTENDS PathAbs, Json
CONSTANTS Paths, Stores
VARIABLES vec,    \* store -> sequence of paths
          back,   \* store -> path -> index
          ids,    \* store -> id -> path, as promised
          ok,     \* all answers kept the promise
          hist
vars == <<vec, back, ids, ok, hist>>
None == [x \in {} |-> 0]
Init == /\ vec = [s \in Stores |-> <<>>] /\ back = [s \in Stores |-> None] /\ ids = [s \in Stores |-> NoIds]
        /\ ok = TRUE /\ hist = <<>>
\* [v, b, id] after asking a store for the id of a path
Ask(v, b, p) == IF p \in DOMAIN b THEN [v |-> v, b |-> b, id |-> b[p]]
                ELSE [v |-> Append(v, p), b |-> (p :> Len(v) + 1) @@ b, id |-> Len(v) + 1]
GetId(s, p) == LET r == Ask(vec[s], back[s], p)
               IN  /\ vec' = [vec EXCEPT ![s] = r.v] /\ back' = [back EXCEPT ![s] = r.b]
                   /\ ok' = (ok /\ IdOk(ids[s], p, r.id))
                   /\ ids' = [ids EXCEPT ![s] = WithId(@, p, r.id)]
                   /\ hist' = Append(hist, <<"get", s, p>>)
Combine(s, t) ==
  LET all == FoldLeft(LAMBDA acc, p : LET r == Ask(acc.v, acc.b, p)
                                      IN  [v |-> r.v, b |-> r.b, ok |-> acc.ok /\ IdOk(acc.i, p, r.id),
                                           i |-> WithId(acc.i, p, r.id)],
                      [v |-> vec[s], b |-> back[s], ok |-> TRUE, i |-> ids[s]], vec[t])
  IN  /\ s # t
      /\ vec' = [vec EXCEPT ![s] = all.v, ![t] = <<>>] /\ back' = [back EXCEPT ![s] = all.b, ![t] = None]
      /\ ids' = [ids EXCEPT ![s] = all.i, ![t] = NoIds]
      /\ ok' = (ok /\ all.ok)
      /\ hist' = Append(hist, <<"combine", s, t>>)
Next == \E s \in Stores : (\E p \in Paths : GetId(s, p)) \/ (\E t \in Stores : Combine(s, t))
Spec == Init /\ [][Next]_vars
View == <<vec, back, ids, ok>>
OneToOne == /\ ok
            /\ \A s \in Stores : /\ DOMAIN ids[s] = 1..Len(vec[s])
                                 /\ \A i \in DOMAIN ids[s] : ids[s][i] = vec[s][i] /\ back[s][vec[s][i]] = i
                                 /\ \A i, j \in DOMAIN ids[s] : ids[s][i] = ids[s][j] => i = j
Emit == PrintT(ToJson([hist |-> hist']))
=============================================================================
