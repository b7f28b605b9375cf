------------------------------- MODULE MapAbs -------------------------------
(***************************************************************************)
(* What a family of chain maps means to its users: independent ordinary   *)
(* maps.  One action per public operation; `last` records the operation,   *)
(* its arguments and everything observable about it (`obs`).  This module  *)
(* is the oracle for C06 and C07; ChainLayers.tla shows that the layered,  *)
(* copy-on-write design refines it.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Handles,   \* the maps, numbered 0 .. n-1
          Keys, Vals,
          Lists      \* sequences of <<key, value>> used by extend/collect

VARIABLES maps, last
vars == <<maps, last>>

Empty == [x \in {} |-> 0]

\* the entries of a map as the observer writes them down: sorted by key
Pairs(f) == LET ks == SetToSortSeq(DOMAIN f, <)
            IN  [i \in 1..Len(ks) |-> <<ks[i], f[ks[i]]>>]

\* the map that a list of entries collects to: later entries win
Collect(xs) == FoldLeft(LAMBDA acc, p : (p[1] :> p[2]) @@ acc, Empty, xs)

Snap(ms) == [i \in 1..Cardinality(Handles) |-> Pairs(ms[i-1])]

Opt(f, k) == IF k \in DOMAIN f THEN <<f[k]>> ELSE <<>>
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == /\ maps = [h \in Handles |-> Empty]
        /\ last = [o |-> "init"]

\* every action: the new maps, and the record of the operation
Do(op, r, ms) == /\ maps' = ms
                 /\ last' = op @@ [obs |-> [r |-> r, snap |-> Snap(ms)]]
Set(h, f) == [maps EXCEPT ![h] = f]

New(h)          == Do([o |-> "new", m |-> h], 0, Set(h, Empty))
Insert(h, k, v) == Do([o |-> "insert", m |-> h, k |-> k, v |-> v],
                      k \notin DOMAIN maps[h], Set(h, (k :> v) @@ maps[h]))
Get(h, k)       == Do([o |-> "get", m |-> h, k |-> k], Opt(maps[h], k), maps)
IsEmpty(h)      == Do([o |-> "empty", m |-> h], DOMAIN maps[h] = {}, maps)
Iter(h)         == Do([o |-> "iter", m |-> h], Pairs(maps[h]), maps)
GetMut(h, k, v) == Do([o |-> "getmut", m |-> h, k |-> k, v |-> v], Opt(maps[h], k),
                      IF k \in DOMAIN maps[h] THEN Set(h, (k :> v) @@ maps[h]) ELSE maps)
RemoveKey(h, k)    == Do([o |-> "remove", m |-> h, k |-> k], Opt(maps[h], k),
                      Set(h, Without(maps[h], k)))
IterMut(h, v)   == Do([o |-> "itermut", m |-> h, v |-> v], Pairs(maps[h]),
                      Set(h, [k \in DOMAIN maps[h] |-> maps[h][k] + v]))
Drain(h)        == Do([o |-> "drain", m |-> h], Pairs(maps[h]), Set(h, Empty))
Consolidate(h)  == Do([o |-> "consolidate", m |-> h], 0, maps)
Extend(h, xs)   == Do([o |-> "extend", m |-> h, xs |-> xs], 0, Set(h, Collect(xs) @@ maps[h]))
CollectInto(h, xs) == Do([o |-> "collect", m |-> h, xs |-> xs], 0, Set(h, Collect(xs)))
FromArray(h, xs)   == Do([o |-> "array", m |-> h, xs |-> xs], 0, Set(h, Collect(xs)))
(* Many insertions at once: of keys 0, 1, .. mod-1, 0, 1, .. with values v, v+1, ..; of all of lo..hi *)
Churn(h, n, mod, v) ==
  LET new == 0 .. (IF n < mod THEN n ELSE mod) - 1
  IN  Do([o |-> "churn", m |-> h, n |-> n, mod |-> mod, v |-> v], Cardinality(new \ DOMAIN maps[h]),
         Set(h, [k \in new \cup DOMAIN maps[h] |->
                   IF k \in new THEN v + (n - 1) - ((n - 1 - k) % mod) ELSE maps[h][k]]))
Fill(h, lo, hi, v) ==
  Do([o |-> "fill", m |-> h, lo |-> lo, hi |-> hi, v |-> v], 0,
     Set(h, [k \in (lo..hi) \cup DOMAIN maps[h] |-> IF k >= lo /\ k <= hi THEN v + k ELSE maps[h][k]]))
Append2(h, b)   == h # b /\ Do([o |-> "append", m |-> h, b |-> b], 0,
                      [maps EXCEPT ![h] = maps[b] @@ maps[h], ![b] = Empty])
Clone(h, b)     == h # b /\ Do([o |-> "clone", m |-> h, b |-> b], 0, Set(b, maps[h]))
IntoIter(h)     == Do([o |-> "intoiter", m |-> h], Pairs(maps[h]), Set(h, Empty))

(* Stopping an iteration early: which entries come first is not specified, so the observation is *)
(* part of the action, and must be a selection of the right size.                               *)
Selection(f, c, ps) ==
  /\ Len(ps) = (IF c < Cardinality(DOMAIN f) THEN c ELSE Cardinality(DOMAIN f))
  /\ \A i \in 1..Len(ps) : Len(ps[i]) = 2 /\ ps[i][1] \in DOMAIN f /\ f[ps[i][1]] = ps[i][2]
  /\ \A i, j \in 1..Len(ps) : i # j => ps[i][1] # ps[j][1]

Next == \E h \in Handles :
  \/ New(h) \/ IsEmpty(h) \/ Iter(h) \/ Drain(h) \/ Consolidate(h) \/ IntoIter(h)
  \/ \E k \in Keys : Get(h, k) \/ RemoveKey(h, k)
  \/ \E k \in Keys, v \in Vals : Insert(h, k, v) \/ GetMut(h, k, v)
  \/ IterMut(h, 1)
  \/ \E xs \in Lists : Extend(h, xs) \/ CollectInto(h, xs)
  \/ \E b \in Handles : Append2(h, b) \/ Clone(h, b)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* C07 on this level: an action that names map h (and b) changes no other. *)
(***************************************************************************)
Touched(op) == {op.m} \cup (IF "b" \in DOMAIN op THEN {op.b} ELSE {})
Isolation == [][\A x \in Handles : maps'[x] # maps[x] => x \in Touched(last')]_vars
=============================================================================
