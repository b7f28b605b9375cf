------------------------------- MODULE PathAbs -------------------------------
(***************************************************************************)
(* Paths (C11), the path store (C12), file systems (C13).                  *)
(* A path as written is its segments between separators, each a sequence   *)
(* of bytes; a clean path is a sequence of names.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Sep == 47
Dot == <<46>>
DotDot == <<46, 46>>

\* between the separators of some bytes: always one segment more than separators
Split(bs) == LET at == SelectSeq([i \in 1..Len(bs) |-> i], LAMBDA i : bs[i] = Sep)
                 n == Len(at)
             IN  [k \in 1..n + 1 |-> SubSeq(bs, IF k = 1 THEN 1 ELSE at[k - 1] + 1, IF k = n + 1 THEN Len(bs) ELSE at[k] - 1)]

Absolute(segs) == Len(segs) >= 2 /\ segs[1] = <<>>

\* one segment more, seen from a clean path
Step(cl, seg) == IF seg = <<>> \/ seg = Dot THEN cl
                 ELSE IF seg = DotDot THEN (IF cl = <<>> THEN <<>> ELSE SubSeq(cl, 1, Len(cl) - 1))
                 ELSE Append(cl, seg)
Walk(cl, segs) == FoldLeft(Step, cl, segs)
CleanOf(segs) == Walk(<<>>, segs)                       \* of an absolute path
Resolve(cl, segs) == IF Absolute(segs) THEN CleanOf(segs) ELSE Walk(cl, segs)
Made(segs) == IF Absolute(segs) THEN <<CleanOf(segs)>> ELSE <<>>
Parent(cl) == IF cl = <<>> THEN <<>> ELSE << SubSeq(cl, 1, Len(cl) - 1) >>

\* how a clean path is written
Render(cl) == IF cl = <<>> THEN <<Sep>>
              ELSE FoldLeft(LAMBDA acc, n : acc \o <<Sep>> \o n, <<>>, cl)
IsName(n) == n # <<>> /\ n # Dot /\ n # DotDot
Names(bs) == SelectSeq(Split(bs), IsName)               \* of a rendered clean path
IsClean(bs) == /\ Absolute(Split(bs))
               /\ Render(CleanOf(Split(bs))) = bs
----------------------------------------------------------------------------
(* Order: like sequences of names, names like sequences of bytes.           *)
LexCmp(x, y, Cmp(_, _)) ==
  LET n == IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)
      off == {i \in 1..n : x[i] # y[i]}
      i == CHOOSE k \in off : \A m \in off : k <= m
  IN  IF off # {} THEN Cmp(x[i], y[i])
      ELSE IF Len(x) = Len(y) THEN 0 ELSE IF Len(x) < Len(y) THEN -1 ELSE 1
IntCmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
NameCmp(x, y) == LexCmp(x, y, IntCmp)
PathCmp(p, q) == LexCmp(p, q, NameCmp)
----------------------------------------------------------------------------
(* The store: which path each id was given for. Ids are opaque.             *)
NoIds == [x \in {} |-> <<>>]
Known(ids, p) == \E t \in DOMAIN ids : ids[t] = p
IdOk(ids, p, t) == IF t \in DOMAIN ids THEN ids[t] = p ELSE ~Known(ids, p)
WithId(ids, p, t) == (t :> p) @@ ids
(* A large store, of paths numbered 1..n: the id of each path (0: none yet), and the path of each id.  *)
(* Ids are named 1, 2, .. in the order they are first seen. `r` is what the code answered.           *)
BigStore(n) == [id |-> [k \in 1..n |-> 0], of |-> <<>>]
\* asked for the ids of lo, lo+1, .. in turn
BigAskOk(big, lo, r) ==
  LET step(acc, i) == IF big.id[lo + i - 1] # 0 THEN [acc EXCEPT !.ok = @ /\ r[i] = big.id[lo + i - 1]]
                      ELSE [n |-> acc.n + 1, ok |-> acc.ok /\ r[i] = acc.n + 1]
  IN  FoldLeft(step, [n |-> Len(big.of), ok |-> TRUE], [i \in 1..Len(r) |-> i]).ok
BigAsked(big, lo, r) ==
  [id |-> [k \in DOMAIN big.id |-> IF k >= lo /\ k < lo + Len(r) THEN r[k - lo + 1] ELSE big.id[k]],
   of |-> big.of \o SelectSeq([i \in 1..Len(r) |-> lo + i - 1], LAMBDA k : big.id[k] = 0)]
\* asked for the path of each id
BigPathsOk(big, r) == Len(r) = Len(big.of) /\ \A i \in 1..Len(r) : r[i] = big.of[i]
\* combined with another: pairs of ids, in any order; at[o] is where the old id o is in them
BigCombineOk(a, b, pairs, at) ==
  LET step(acc, pr) == LET x == a.id[b.of[pr[1]]]
                       IN  IF x # 0 THEN [acc EXCEPT !.ok = @ /\ pr[2] = x]
                           ELSE [n |-> acc.n + 1, ok |-> acc.ok /\ pr[2] = acc.n + 1]
  IN  /\ Len(pairs) = Len(b.of) /\ Len(at) = Len(b.of)
      /\ \A o \in 1..Len(at) : at[o] \in 1..Len(pairs) /\ pairs[at[o]][1] = o
      /\ FoldLeft(step, [n |-> Len(a.of), ok |-> TRUE], pairs).ok
BigCombined(a, b, pairs, at) ==
  LET fresh == SelectSeq(pairs, LAMBDA pr : a.id[b.of[pr[1]]] = 0)
  IN  [id |-> [k \in DOMAIN a.id |-> IF a.id[k] # 0 THEN a.id[k]
                                      ELSE IF b.id[k] # 0 THEN pairs[at[b.id[k]]][2] ELSE 0],
       of |-> a.of \o [i \in 1..Len(fresh) |-> b.of[fresh[i][1]]]]
----------------------------------------------------------------------------
(* A file system in memory: texts by clean path.                            *)
HasUp(segs) == \E i \in 1..Len(segs) : segs[i] = DotDot
\* the files a spelling may denote. Whether `..` is resolved is left open.
Denotes(mem, segs, p) == Absolute(segs) /\ p \in DOMAIN mem /\ p = CleanOf(segs)
StrictlyBelow(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Listing(mem, segs) == {p \in DOMAIN mem : StrictlyBelow(CleanOf(segs), p)}
----------------------------------------------------------------------------
(* A real one: nodes by clean path.  [k |-> "dir"], [k |-> "file", b |-> bytes], *)
(* [k |-> "link", to |-> clean path], [k |-> "special"]: neither, as a socket. *)
RECURSIVE Follow(_, _, _)
\* where a path leads: <<>> if nowhere, else <<node>>. "through" a file leads to [k |-> "notdir"].
Follow(fs, p, fuel) ==
  IF fuel = 0 THEN <<>>
  ELSE LET links == {i \in 1..Len(p) : SubSeq(p, 1, i) \in DOMAIN fs /\ fs[SubSeq(p, 1, i)].k = "link"}
           files == {i \in 1..Len(p) - 1 : SubSeq(p, 1, i) \in DOMAIN fs /\ fs[SubSeq(p, 1, i)].k \in {"file", "special"}}
       IN  IF links # {}
           THEN LET i == CHOOSE x \in links : \A y \in links : x <= y
                IN  Follow(fs, fs[SubSeq(p, 1, i)].to \o SubSeq(p, i + 1, Len(p)), fuel - 1)
           ELSE IF files # {} THEN <<[k |-> "notdir"]>>
           ELSE IF p \in DOMAIN fs THEN <<fs[p] @@ [at |-> p]>> ELSE <<>>
At(fs, p) == Follow(fs, p, 8)
Entries(fs, d) == {p[Len(p)] : p \in {q \in DOMAIN fs : Len(q) = Len(d) + 1 /\ SubSeq(q, 1, Len(d)) = d}}
=============================================================================
