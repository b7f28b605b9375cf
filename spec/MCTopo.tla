------------------------------- MODULE MCTopo -------------------------------
(***************************************************************************)
(* The design of topo-sort: one stack of things to start and to end; run   *)
(* against the protocol of TopoAbs for every visitor (what each element    *)
(* requests, how often it is skipped) and every start.                     *)
(***************************************************************************)
EXTENDS TopoAbs, Json, FiniteSetsExt
CONSTANTS Elems, MaxReqs, MaxWork, MaxSkip, Refuse
VARIABLES reqs, nskip, work, acts, cur, idone, icycle, level, calls, phase, order
ivars == <<reqs, nskip, work, acts, cur, idone, icycle, level, calls, phase, order>>
vars == <<tvars, ivars>>
Seqs(n) == UNION {[1..m -> Elems] : m \in 0..n}
Starts(xs) == [i \in 1..Len(xs) |-> [a |-> "start", x |-> xs[i]]]
Init == /\ reqs \in [Elems -> Seqs(MaxReqs)]
        /\ nskip \in [Elems -> 0..MaxSkip]
        /\ work \in Seqs(MaxWork)
        /\ acts = Starts(work) /\ cur = {} /\ idone = {} /\ icycle = <<>> /\ level = 0
        /\ calls = [x \in Elems |-> 0] /\ phase = "pop" /\ order = <<>>
        /\ \E ref \in (IF Refuse THEN SUBSET Elems ELSE {{}}) : Start(work, ref)
\* graphs: the requests are the neighbors, in order, and all nodes are asked for, in order
Sorted(s) == SetToSortSeq(s, <)
GraphInit == /\ reqs \in [Elems -> {Sorted(s) : s \in SUBSET Elems}]
             /\ nskip = [x \in Elems |-> 0]
             /\ work = Sorted(Elems)
             /\ acts = Starts(work) /\ cur = {} /\ idone = {} /\ icycle = <<>> /\ level = 0
             /\ calls = [x \in Elems |-> 0] /\ phase = "pop" /\ order = <<>>
             /\ Start(work, {})
Popped == SubSeq(acts, 1, Len(acts) - 1)
Same == UNCHANGED <<reqs, nskip, work>>
Pop ==
  /\ phase = "pop" /\ acts # <<>> /\ Same
  /\ LET a == acts[Len(acts)] IN
     IF a.a = "start" THEN
       /\ IF a.x \in idone
          THEN acts' = Popped /\ UNCHANGED <<cur, icycle, calls, phase, tvars>>
          ELSE LET skip == calls[a.x] < nskip[a.x] \/ (a.x \in cur /\ a.x \in refuse)
                   n == calls[a.x] + 1
               IN  /\ Assert(EnterOk(a.x), "entered what was not requested")
                   /\ Enter(a.x, IF skip THEN <<>> ELSE <<n>>)
                   /\ calls' = [calls EXCEPT ![a.x] = n]
                   /\ IF skip THEN acts' = Popped /\ UNCHANGED <<cur, icycle, phase>>
                      ELSE IF a.x \in cur
                      THEN /\ acts' = Popped
                           /\ icycle' = IF icycle = <<>> THEN <<a.x>> ELSE icycle
                           /\ UNCHANGED <<cur, phase>>
                      ELSE /\ cur' = cur \cup {a.x}
                           /\ acts' = Append(Popped, [a |-> "end", x |-> a.x])
                           /\ phase' = "process" /\ UNCHANGED icycle
       /\ UNCHANGED <<idone, level, order>>
     ELSE
       /\ level' = level - 1
       /\ Assert(ExitOk(a.x, level - 1), "bad exit")
       /\ Assert(a.x \in cur /\ a.x \notin idone, "always!")
       /\ Exit(a.x)
       /\ cur' = cur \ {a.x} /\ idone' = idone \cup {a.x} /\ acts' = Popped
       /\ order' = Append(order, a.x)
       /\ UNCHANGED <<icycle, calls, phase>>
DoProcess ==
  /\ phase = "process" /\ Same
  /\ LET x == acts[Len(acts)].x IN
     /\ Assert(ProcessOk(x, calls[x]), "bad process")
     /\ Process(x, reqs[x])
     /\ acts' = acts \o Starts(reqs[x])
     /\ level' = level + 1
     /\ phase' = "pop"
     /\ UNCHANGED <<cur, idone, icycle, calls, order>>
Finish ==
  /\ phase = "pop" /\ acts = <<>> /\ Same
  /\ Assert(level = 0 /\ cur = {}, "always!")
  /\ Assert(EndOk(idone, icycle), "bad end")
  /\ phase' = "done"
  /\ UNCHANGED <<tvars, acts, cur, idone, icycle, level, calls, order>>
Next == Pop \/ DoProcess \/ Finish
Spec == Init /\ [][Next]_vars
GraphSpec == GraphInit /\ [][Next]_vars
\* a graph is the visitor whose requests are the neighbors, started with all nodes that are keys
AsGraph == [i \in 1..Cardinality(Elems) |-> <<i, reqs[i]>>]
GraphSort == phase = "done" =>
  LET ob == IF icycle = <<>> THEN [ok |-> order] ELSE [cycle |-> icycle[1]]
  IN  SortOk(AsGraph, ob) /\ CycleOk(AsGraph, ob)
Emit == IF phase' = "done"
        THEN PrintT(ToJson([work |-> work, refuse |-> refuse, reqs |-> [i \in 1..Cardinality(Elems) |-> reqs[i]],
                            skip |-> [i \in 1..Cardinality(Elems) |-> nskip[i]]]))
        ELSE TRUE
=============================================================================
