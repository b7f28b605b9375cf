----------------------------- MODULE ChainLayers -----------------------------
(***************************************************************************)
(* The design of chain-map: a map is a stack of layers, clones share       *)
(* layers, and a layer is changed in place only after making sure that no  *)
(* one else has it.  Structured like the code: consolidate_ is the one     *)
(* place where layers are merged, copied or made writable.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Handles, Keys, Vals, Lists,
          MaxOps,    \* bound on the length of histories
          MaxVal     \* bound on values (IterMut adds)

VARIABLES layers,    \* layer id -> finite map
          stacks,    \* map -> sequence of layer ids, oldest first
          last
vars == <<layers, stacks, last>>

Empty == [x \in {} |-> 0]
Pairs(f) == LET ks == SetToSortSeq(DOMAIN f, <)
            IN  [i \in 1..Len(ks) |-> <<ks[i], f[ks[i]]>>]
Collect(xs) == FoldLeft(LAMBDA acc, p : (p[1] :> p[2]) @@ acc, Empty, xs)

\* the meaning of a stack: newer layers win
Meaning(ls, stk) == FoldLeft(LAMBDA acc, id : ls[id] @@ acc, Empty, stk)
Abs == [h \in Handles |-> Meaning(layers, stacks[h])]
AbsIn(ls, sts) == [h \in Handles |-> Meaning(ls, sts[h])]

Snap(ms) == [i \in 1..Cardinality(Handles) |-> Pairs(ms[i-1])]

(* Layers no stack has are dropped, and the rest are numbered in order of first use, so that     *)
(* states that differ only in the names of layers are one state.                                 *)
UsedIn(sts) == LET all == FoldLeft(LAMBDA acc, h : acc \o sts[h], <<>>, SetToSortSeq(Handles, <))
               IN  FoldLeft(LAMBDA acc, x : IF Contains(acc, x) THEN acc ELSE Append(acc, x), <<>>, all)
Canon(ls, sts) ==
  LET used == UsedIn(sts)
      name(id) == CHOOSE i \in 1..Len(used) : used[i] = id
  IN  [ls |-> [i \in 1..Len(used) |-> ls[used[i]]],
       sts |-> [h \in Handles |-> [i \in 1..Len(sts[h]) |-> name(sts[h][i])]]]

FreshIn(ls) == Len(ls) + 1
Refs(sts, id) == Cardinality({<<h, i>> \in UNION {{<<h, i>> : i \in 1..Len(sts[h])} : h \in Handles} :
                               sts[h][i] = id})

Init == /\ layers = <<>>
        /\ stacks = [h \in Handles |-> <<>>]
        /\ last = [o |-> "init"]

Do(op, r, ls, sts) ==
  LET c == Canon(ls, sts)
  IN  /\ layers' = c.ls
      /\ stacks' = c.sts
      /\ last' = op @@ [obs |-> [r |-> r, snap |-> Snap(AbsIn(ls, sts))]]

(* consolidate_: one layer, owned by h alone.  Gives [ls, sts, id]. *)
Consolidated(h) ==
  LET stk == stacks[h]
      merged ==
        IF Len(stk) = 1 THEN [ls |-> layers, sts |-> stacks, id |-> stk[1]]
        ELSE LET id == FreshIn(layers)
             IN  [ls |-> Append(layers, Meaning(layers, stk)),
                  sts |-> [stacks EXCEPT ![h] = <<id>>], id |-> id]
  IN  IF Refs(merged.sts, merged.id) = 1 THEN merged
      ELSE LET id == FreshIn(merged.ls)   \* make_mut copies a shared layer
           IN  [ls |-> Append(merged.ls, merged.ls[merged.id]),
                sts |-> [merged.sts EXCEPT ![h] = <<id>>], id |-> id]

Push(h, f) == [ls |-> Append(layers, f), sts |-> [stacks EXCEPT ![h] = Append(@, FreshIn(layers))]]
InPlace(c, f) == [c.ls EXCEPT ![c.id] = f]
Opt(f, k) == IF k \in DOMAIN f THEN <<f[k]>> ELSE <<>>
Find(h, k) == Opt(Meaning(layers, stacks[h]), k)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

New(h) == Do([o |-> "new", m |-> h], 0, layers, [stacks EXCEPT ![h] = <<>>])
Insert(h, k, v) ==
  LET p == Push(h, k :> v)
      isNew == \A i \in 1..Len(stacks[h]) : k \notin DOMAIN layers[stacks[h][i]]
  IN  Do([o |-> "insert", m |-> h, k |-> k, v |-> v], isNew, p.ls, p.sts)
Get(h, k) == Do([o |-> "get", m |-> h, k |-> k], Find(h, k), layers, stacks)
IsEmpty(h) == Do([o |-> "empty", m |-> h],
                 \A i \in 1..Len(stacks[h]) : layers[stacks[h][i]] = Empty, layers, stacks)
Iter(h) == Do([o |-> "iter", m |-> h], Pairs(Meaning(layers, stacks[h])), layers, stacks)
GetMut(h, k, v) ==
  LET c == Consolidated(h)
      f == c.ls[c.id]
  IN  Do([o |-> "getmut", m |-> h, k |-> k, v |-> v], Opt(f, k),
         IF k \in DOMAIN f THEN InPlace(c, (k :> v) @@ f) ELSE c.ls, c.sts)
RemoveKey(h, k) ==
  LET c == Consolidated(h)
      f == c.ls[c.id]
  IN  Do([o |-> "remove", m |-> h, k |-> k], Opt(f, k), InPlace(c, Without(f, k)), c.sts)
IterMut(h, v) ==
  LET c == Consolidated(h)
      f == c.ls[c.id]
  IN  Do([o |-> "itermut", m |-> h, v |-> v], Pairs(f),
         InPlace(c, [k \in DOMAIN f |-> f[k] + v]), c.sts)
Drain(h) ==
  LET c == Consolidated(h)
  IN  Do([o |-> "drain", m |-> h], Pairs(c.ls[c.id]), InPlace(c, Empty), c.sts)
Consolidate(h) ==
  LET c == Consolidated(h) IN Do([o |-> "consolidate", m |-> h], 0, c.ls, c.sts)
Extend(h, xs) ==
  LET p == Push(h, Collect(xs)) IN Do([o |-> "extend", m |-> h, xs |-> xs], 0, p.ls, p.sts)
CollectInto(h, xs) ==
  LET id == FreshIn(layers)
  IN  Do([o |-> "collect", m |-> h, xs |-> xs], 0, Append(layers, Collect(xs)),
         [stacks EXCEPT ![h] = <<id>>])
Append2(h, b) ==
  h # b /\ Do([o |-> "append", m |-> h, b |-> b], 0, layers,
              [stacks EXCEPT ![h] = @ \o stacks[b], ![b] = <<>>])
Clone(h, b) == h # b /\ Do([o |-> "clone", m |-> h, b |-> b], 0, layers,
                           [stacks EXCEPT ![b] = stacks[h]])
IntoIter(h) ==
  LET c == Consolidated(h)
  IN  Do([o |-> "intoiter", m |-> h], Pairs(c.ls[c.id]), c.ls, [c.sts EXCEPT ![h] = <<>>])

Next == \E h \in Handles :
  \/ New(h) \/ IsEmpty(h) \/ Iter(h) \/ Drain(h) \/ Consolidate(h) \/ IntoIter(h)
  \/ \E k \in Keys : Get(h, k) \/ RemoveKey(h, k)
  \/ \E k \in Keys, v \in Vals : Insert(h, k, v) \/ GetMut(h, k, v)
  \/ IterMut(h, 1)
  \/ \E xs \in Lists : Extend(h, xs) \/ CollectInto(h, xs)
  \/ \E b \in Handles : Append2(h, b) \/ Clone(h, b)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* C06 and C07: the layered design does exactly what independent ordinary maps do. *)
A == INSTANCE MapAbs WITH maps <- Abs
Refines == A!Spec
Isolation == [][\A x \in Handles : Abs'[x] # Abs[x] => x \in A!Touched(last')]_vars

(* Every layer in use is used; no dangling ids. *)
TypeOK == /\ \A h \in Handles : \A i \in 1..Len(stacks[h]) : stacks[h][i] \in 1..Len(layers)
          /\ \A id \in 1..Len(layers) : Refs(stacks, id) > 0
Small == \A id \in 1..Len(layers) : \A k \in DOMAIN layers[id] : layers[id][k] <= MaxVal
=============================================================================
