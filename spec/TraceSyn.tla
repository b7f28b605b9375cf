------------------------------ MODULE TraceSyn ------------------------------
(* Recorded behaviour of generated code, judged by SynAbs. A reset event carries the grammar. *)
EXTENDS SynAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
Field(r, f) == f \in DOMAIN r
\* the nodes of a tree, parents first
RECURSIVE NodesOf(_)
NodesOf(t) == IF t.tok THEN <<>> ELSE <<t>> \o Flat([k \in 1..Len(t.ch) |-> NodesOf(t.ch[k])])
TypeOf(n) == CHOOSE k \in 1..Len(g.nodes) : g.nodes[k].alt = "no" /\ g.nodes[k].name = n.k
HasType(n) == \E k \in 1..Len(g.nodes) : g.nodes[k].alt = "no" /\ g.nodes[k].name = n.k
Casts(n) == [k \in 1..Len(g.nodes) |->
               IF g.nodes[k].alt = "tokens" \/ n.k \notin NodeTypeKinds(g, g.nodes[k]) THEN <<>> ELSE <<n.k>>]
Texts(x) == [k \in 1..Len(g.nodes) |->
               LET n == g.nodes[k]
                   fits == {m \in ToSet(n.members) : KindName(g, g.tokens[m]) = x.k}
               IN  IF n.alt # "tokens" \/ ~x.tok \/ fits = {} THEN <<>> ELSE <<g.tokens[CHOOSE m \in fits : TRUE].text>>]
RootName == <<82, 111, 111, 116>>
Look(n) == [cast |-> Casts(n),
            fields |-> IF HasType(n) THEN [k \in 1..Len(g.nodes[TypeOf(n)].fields) |-> Access(g, g.nodes[TypeOf(n)], k, n.ch)] ELSE <<>>,
            toks |-> [k \in 1..Len(n.ch) |-> IF n.ch[k].tok THEN Texts(n.ch[k]) ELSE <<>>],
            \* whether it can be cloned and shows itself as its tree
            root |-> IF n.k = RootName /\ HasType(n) THEN <<TRUE>> ELSE <<>>]
KindsOk(r) ==
  LET seen == {[n |-> r[k].n, triv |-> r[k].triv, desc |-> r[k].desc, doc |-> r[k].doc] : k \in 1..Len(r)}
  IN  /\ seen = Kinds(g)
      /\ Len(r) = Len(g.trivia) + Len(g.tokens) + Cardinality(NodeKinds(g))
      /\ Cardinality({r[k].n : k \in 1..Len(r)}) = Len(r)
      /\ \A k \in 1..Len(r) : r[k].show = Shown(r[k]) /\ r[k].raw = k - 1 /\ r[k].back = k - 1
PunctOk(r) ==
  /\ {<<r[k][1], r[k][2]>> : k \in 1..Len(r)} = OfClass(g, "punctuation")
  /\ Len(r) = Cardinality(OfClass(g, "punctuation"))
  /\ \A i, j \in 1..Len(r) : i < j => Len(r[i][1]) >= Len(r[j][1])
Keyword(t) == LET fits == {x \in OfClass(g, "keyword") : x[1] = t} IN IF fits = {} THEN <<>> ELSE <<(CHOOSE x \in fits : TRUE)[2]>>
Wrong(e) ==
  IF ~Field(e.obs, "r") THEN <<"a result">>
  ELSE CASE e.o = "kinds" -> IF KindsOk(e.obs.r) THEN <<>> ELSE <<Kinds(g)>>
         [] e.o = "punct" -> IF PunctOk(e.obs.r) THEN <<>> ELSE <<OfClass(g, "punctuation")>>
         [] e.o = "keyword" -> LET w == [k \in 1..Len(e.ts) |-> Keyword(e.ts[k])] IN IF e.obs.r = w THEN <<>> ELSE <<w>>
         [] e.o = "by" -> IF e.obs.r = <<e.file, e.file>> THEN <<>> ELSE <<e.file>>
         [] e.o = "tree" -> LET ns == NodesOf(e.t)
                                w == [k \in 1..Len(ns) |-> Look(ns[k])]
                            IN  IF e.obs.r = w THEN <<>> ELSE <<w>>
TInit == l = 1 /\ g = <<>>
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.o = "reset" THEN g' = e.g
            ELSE /\ UNCHANGED g
                 /\ LET w == Wrong(e) IN IF w = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", l, ToJson([expected |-> w[1]])>>)
TSpec == TInit /\ [][TNext]_<<l, g>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
