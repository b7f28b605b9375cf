------------------------------- MODULE TopoAbs -------------------------------
(***************************************************************************)
(* The protocol of a traversal (C10), whatever order it chooses: what the  *)
(* visitor sees, in terms of brackets.  Each action gives TRUE if the call *)
(* is allowed now; the state is advanced in any case.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES open,     \* elements in progress, outermost first: [x, reqs, since]
          done,     \* elements exited
          asked,    \* elements requested so far
          skips,    \* element -> how often it was skipped
          inprog,   \* elements requested, and not skipped, while in progress
          given,    \* data handed out: set of <<element, data>>
          base,     \* the work at the start: [reqs, since]
          refuse    \* elements that the visitor skips while they are in progress
tvars == <<open, done, asked, skips, inprog, given, base, refuse>>

Zero == [x \in {} |-> 0]
Count(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Opened == {open[i].x : i \in 1..Len(open)}
Times(xs, x) == Cardinality({i \in 1..Len(xs) : xs[i] = x})

Start(work, ref) == /\ refuse = ref /\ open = <<>> /\ done = {} /\ asked = ToSet(work) /\ skips = Zero /\ inprog = {}
               /\ given = {} /\ base = [reqs |-> work, since |-> Zero]
StartNext(work, ref) == /\ refuse' = ref /\ open' = <<>> /\ done' = {} /\ asked' = ToSet(work) /\ skips' = Zero /\ inprog' = {}
                   /\ given' = {} /\ base' = [reqs |-> work, since |-> Zero]

\* every request of a frame has been exited, skipped, or found in progress
Settled(fr, opened) ==
  \A i \in 1..Len(fr.reqs) :
    LET x == fr.reqs[i]
    IN  \/ x \in done
        \/ x \in opened
        \/ Count(skips, x) - Count(fr.since, x) >= Times(fr.reqs, x)

\* the visitor is asked for an element's data: data = <<>> means skip
EnterOk(x) == x \in asked
Enter(x, data) ==
  /\ skips' = IF data = <<>> THEN (x :> Count(skips, x) + 1) @@ skips ELSE skips
  /\ given' = IF data = <<>> THEN given ELSE given \cup {<<x, data[1]>>}
  /\ UNCHANGED <<open, done, asked, inprog, base, refuse>>

ProcessOk(x, data) == /\ x \in asked /\ x \notin done /\ x \notin Opened
                      /\ <<x, data>> \in given
Process(x, reqs) ==
  /\ open' = Append(open, [x |-> x, reqs |-> reqs, since |-> skips])
  /\ asked' = asked \cup ToSet(reqs)
  /\ inprog' = inprog \cup ((ToSet(reqs) \cap (Opened \cup {x})) \ refuse)
  /\ UNCHANGED <<done, skips, given, base, refuse>>

ExitOk(x, level) == /\ open # <<>> /\ open[Len(open)].x = x
                    /\ level = Len(open) - 1
                    /\ Settled(open[Len(open)], Opened)
Exit(x) == /\ open' = IF open = <<>> THEN open ELSE SubSeq(open, 1, Len(open) - 1)
           /\ done' = done \cup {x}
           /\ UNCHANGED <<asked, skips, inprog, given, base, refuse>>

(* Runs of calls, for traversals too long to be recorded call by call: the elements lo, lo+1, .. hi  *)
(* are entered (with data d, d+1, ..) and processed, each requesting the next; and exited in reverse. *)
DiveOk(lo, hi, d) == /\ lo \in asked
                     /\ done \cap (lo..hi) = {}
                     /\ Opened \cap (lo..hi) = {}
Dive(lo, hi, d) ==
  /\ open' = open \o [i \in 1..hi - lo + 1 |-> [x |-> lo + i - 1, reqs |-> <<lo + i>>, since |-> skips]]
  /\ asked' = asked \cup (lo..hi + 1)
  /\ inprog' = inprog \cup (({hi + 1} \cap Opened) \ refuse)
  /\ given' = given \cup {<<x, d + x - lo>> : x \in lo..hi}
  /\ UNCHANGED <<done, skips, base, refuse>>
RiseOk(lo, hi, level) ==
  LET n == Len(open)
  IN  /\ n >= hi - lo + 1 /\ level = n - 1
      /\ \A i \in 1..hi - lo + 1 : open[n - i + 1].x = hi - i + 1
      /\ Settled(open[n], Opened)
      \* the others have but requested the one just exited
      /\ \A i \in 2..hi - lo + 1 : open[n - i + 1].reqs = <<hi - i + 2>>
Rise(lo, hi) ==
  /\ open' = SubSeq(open, 1, Len(open) - (hi - lo + 1))
  /\ done' = done \cup (lo..hi)
  /\ UNCHANGED <<asked, skips, inprog, given, base, refuse>>

EndOk(dn, cycle) == /\ open = <<>>
                    /\ Settled(base, {})
                    /\ dn = done
                    /\ IF inprog = {} THEN cycle = <<>>
                       ELSE cycle # <<>> /\ cycle[1] \in inprog
----------------------------------------------------------------------------
(* Graphs (C08, C09): a sequence of <<node, <<neighbors>>>>.                *)
Keys(g) == {g[i][1] : i \in 1..Len(g)}
Nodes(g) == Keys(g) \cup UNION {ToSet(g[i][2]) : i \in 1..Len(g)}
Nbrs(g) == LET at == [k \in Keys(g) |-> CHOOSE i \in 1..Len(g) : g[i][1] = k]
           IN  [x \in Nodes(g) |-> IF x \in Keys(g) THEN ToSet(g[at[x]][2]) ELSE {}]

\* everything reachable from a set of nodes in one step or more
RECURSIVE Reach(_, _, _)
Reach(nb, seen, front) ==
  LET new == (UNION {nb[x] : x \in front}) \ seen
  IN  IF new = {} THEN seen ELSE Reach(nb, seen \cup new, new)
OnCycle(nb, x) == x \in DOMAIN nb /\ x \in Reach(nb, {}, {x})

\* what is left after taking away nodes without remaining neighbors: empty iff there is no cycle
RECURSIVE Core(_, _)
Core(nb, left) ==
  LET stay == {x \in left : nb[x] \cap left # {}}
  IN  IF stay = left THEN left ELSE Core(nb, stay)
Cyclic(g) == LET nb == Nbrs(g) IN Core(nb, Nodes(g)) # {}

ValidOrder(g, order) ==
  LET nb == Nbrs(g)
      pos == [x \in ToSet(order) |-> CHOOSE i \in 1..Len(order) : order[i] = x]
  IN  /\ ToSet(order) = Nodes(g)
      /\ Len(order) = Cardinality(Nodes(g))
      /\ \A x \in Nodes(g) : \A y \in nb[x] : pos[y] < pos[x]

\* obs: [ok |-> order] or [cycle |-> witness] or [panic |-> TRUE]
SortOk(g, ob) ==   \* C08
  IF "ok" \in DOMAIN ob THEN ValidOrder(g, ob.ok) \/ Cyclic(g)
  ELSE Cyclic(g)
CycleOk(g, ob) ==  \* C09
  IF "cycle" \in DOMAIN ob THEN OnCycle(Nbrs(g), ob.cycle)
  ELSE IF "ok" \in DOMAIN ob THEN ValidOrder(g, ob.ok) \/ ~Cyclic(g)
  ELSE ~Cyclic(g)

(* Large graphs: nb[i] are the neighbors of i, of 1..n. A certificate comes with the graph: `rank`,   *)
(* which edges go down except inside of `loop`, a cycle (or empty). So its elements are the only ones *)
(* on cycles. `at` says where each element is in the order.                                           *)
CertOk(nb, rank, loop) ==
  LET n == Len(loop)
      in == ToSet(loop)
  IN  /\ \A i \in 1..n : \E k \in 1..Len(nb[loop[i]]) : nb[loop[i]][k] = loop[(i % n) + 1]
      /\ \A i \in 1..Len(nb) : \A k \in 1..Len(nb[i]) :
           rank[nb[i][k]] < rank[i] \/ (rank[nb[i][k]] = rank[i] /\ i \in in /\ nb[i][k] \in in)
BigOrder(nb, order, at) ==
  /\ Len(order) = Len(nb) /\ Len(at) = Len(nb)
  /\ \A i \in 1..Len(nb) : at[i] \in 1..Len(order) /\ order[at[i]] = i
  /\ \A i \in 1..Len(nb) : \A k \in 1..Len(nb[i]) : at[nb[i][k]] < at[i]
BigSortOk(nb, loop, ob) ==   \* C08
  IF "ok" \in DOMAIN ob THEN loop # <<>> \/ BigOrder(nb, ob.ok, ob.at) ELSE loop # <<>>
BigCycleOk(nb, loop, ob) ==  \* C09
  IF "cycle" \in DOMAIN ob THEN ob.cycle \in ToSet(loop)
  ELSE IF "ok" \in DOMAIN ob THEN loop = <<>> \/ BigOrder(nb, ob.ok, ob.at) ELSE loop = <<>>
=============================================================================
