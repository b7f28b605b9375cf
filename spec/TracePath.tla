------------------------------ MODULE TracePath ------------------------------
(* Recorded uses of paths, stores and file systems, judged by PathAbs. A handle's path is what the *)
(* code last said it is, so that a wrong path is the fault of the operation that gave it, only.    *)
EXTENDS PathAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES hs, st, mem, fs, l
tvars == <<hs, st, mem, fs>>
Has(r, f) == f \in DOMAIN r
Nothing == [x \in {} |-> <<>>]
Mismatch(x) == PrintT(<<"MISMATCH", l, ToJson([expected |-> x])>>)
Judge(ok, x) == IF ok THEN TRUE ELSE Mismatch(x)
Keep(vs) == UNCHANGED vs

PathEvent(e) ==
  LET x == CASE e.o = "new" -> [i \in 1..Len(Made(Split(e.raw))) |-> Render(Made(Split(e.raw))[i])]
             [] e.o = "push" -> <<Render(Resolve(Names(hs[e.h]), Split(e.raw)))>>
             [] e.o = "join" -> <<Render(Resolve(Names(hs[e.h]), Split(e.raw)))>>
             [] e.o = "parent" -> LET p == Parent(Names(hs[e.h])) IN [i \in 1..Len(p) |-> Render(p[i])]
             [] e.o = "show" -> <<hs[e.h]>>
             [] e.o = "root" -> <<Render(<<>>)>>
      to == IF e.o \in {"push", "show"} THEN e.h ELSE e.to
  IN  /\ Judge(Focus # "C11" \/ (Has(e.obs, "r") /\ e.obs.r = x), x)
      /\ hs' = IF Has(e.obs, "r") /\ e.obs.r # <<>> THEN (to :> e.obs.r[1]) @@ hs ELSE hs
      /\ Keep(<<st, mem, fs>>)

OrderEvent(e) ==
  LET ps == [i \in 1..Len(e.hs) |-> Names(hs[e.hs[i]])]
      n == Len(ps)
      in == {ps[i] : i \in {k \in 1..n : k % 2 = 1}}
      x == [cmp |-> [i \in 1..n |-> [j \in 1..n |-> PathCmp(ps[i], ps[j])]],
            eq |-> [i \in 1..n |-> [j \in 1..n |-> IF ps[i] = ps[j] THEN 1 ELSE 0]],
            has |-> [i \in 1..n |-> IF ps[i] \in in THEN 1 ELSE 0]]
      s == SetToSortSeq(in, LAMBDA p, q : PathCmp(p, q) = -1)
      sorted == [i \in 1..Len(s) |-> Render(s[i])]
  IN  /\ Judge(Focus # "C11" \/ e.obs = [r |-> x @@ [sorted |-> sorted]], x)
      /\ Keep(<<hs, st, mem, fs>>)

Ids(s) == IF s \in DOMAIN st THEN st[s] ELSE NoIds
CombineOk(a, b, pairs) ==
  LET step(acc, pr) ==
        LET p == IF pr[1] \in DOMAIN b THEN b[pr[1]] ELSE <<>>
        IN  [ok |-> acc.ok /\ pr[1] \in DOMAIN b /\ pr[1] \notin acc.seen /\ IdOk(acc.ids, p, pr[2]),
             seen |-> acc.seen \cup {pr[1]},
             ids |-> WithId(acc.ids, p, pr[2])]
      r == FoldLeft(step, [ok |-> TRUE, seen |-> {}, ids |-> a], pairs)
  IN  [ok |-> r.ok /\ r.seen = DOMAIN b, ids |-> r.ids]
StoreEvent(e) ==
  /\ Keep(<<hs, mem, fs>>)
  /\ IF ~Has(e.obs, "r") THEN Mismatch("no panic") /\ Keep(st)
     ELSE CASE e.o = "id" -> /\ Judge(IdOk(Ids(e.s), hs[e.h], e.obs.r), Ids(e.s))
                             /\ st' = (e.s :> WithId(Ids(e.s), hs[e.h], e.obs.r)) @@ st
            [] e.o = "path" -> /\ Judge(e.obs.r = Ids(e.s)[e.id], Ids(e.s)[e.id])
                               /\ Keep(st)
            [] e.o = "combine" -> LET c == CombineOk(Ids(e.s), Ids(e.t), e.obs.r)
                                  IN  /\ Judge(c.ok, [this |-> Ids(e.s), other |-> Ids(e.t)])
                                      /\ st' = (e.s :> c.ids) @@ (e.t :> NoIds) @@ st

\* a wrong answer ends the judging of a large store, so that nothing follows from it
Gone == [s \in {} |-> <<>>]
BigEvent(e) ==
  /\ Keep(<<hs, mem, fs>>)
  /\ IF e.o = "bigstores" THEN st' = [x \in 0..1 |-> BigStore(e.n)]
     ELSE IF st = Gone THEN Keep(st)
     ELSE IF ~Has(e.obs, "r") THEN Mismatch("no panic") /\ st' = Gone
     ELSE LET ok == CASE e.o = "bigids" -> BigAskOk(st[e.s], e.lo, e.obs.r)
                      [] e.o = "bigpaths" -> BigPathsOk(st[e.s], e.obs.r)
                      [] e.o = "bigcombine" -> BigCombineOk(st[0], st[1], e.obs.r, e.at)
          IN  IF ~ok THEN Mismatch("other answers") /\ st' = Gone
              ELSE CASE e.o = "bigids" -> st' = [st EXCEPT ![e.s] = BigAsked(@, e.lo, e.obs.r)]
                     [] e.o = "bigpaths" -> Keep(st)
                     [] e.o = "bigcombine" -> st' = [st EXCEPT ![0] = BigCombined(@, st[1], e.obs.r, e.at)]

NotFound == [err |-> "NotFound"]
MemOk(e) ==
  CASE e.o = "mcwd" -> Has(e.obs, "r") /\ IsClean(e.obs.r)
    [] e.o = "mdir" -> /\ Has(e.obs, "r")
                       /\ LET x == {Render(p) : p \in Listing(mem, Split(e.raw))}
                          IN  ToSet(e.obs.r) = x /\ Len(e.obs.r) = Cardinality(x)
    [] OTHER ->
       LET segs == Split(e.raw)
           hits == {p \in DOMAIN mem : Denotes(mem, segs, p)}
           found == IF e.o = "mfile" THEN [r |-> TRUE]
                    ELSE [r |-> IF e.o = "mread" THEN mem[CHOOSE p \in hits : TRUE].t
                                ELSE mem[CHOOSE p \in hits : TRUE].b]
           missed == IF e.o = "mfile" THEN [r |-> FALSE] ELSE NotFound
       IN  IF hits = {} THEN e.obs = missed
           ELSE \/ e.obs = found
                \/ HasUp(segs) /\ e.obs = missed
MemEvent(e) ==
  /\ Keep(<<hs, st, fs>>)
  /\ IF e.o = "mput" THEN mem' = (Names(hs[e.h]) :> [t |-> e.text, b |-> e.bytes]) @@ mem
     ELSE IF e.o = "mdel" THEN mem' = [p \in DOMAIN mem \ {Names(hs[e.h])} |-> mem[p]]
     ELSE Judge(MemOk(e), mem) /\ Keep(mem)

RealOk(e) ==
  IF e.o = "rcwd" THEN e.obs = [r |-> Render(Names(e.dir))]
  ELSE LET at == At(fs, CleanOf(<< <<>> >> \o Split(e.raw)))
           k == IF at = <<>> THEN "none" ELSE at[1].k
       IN  CASE e.o = "rfile" -> e.obs = [r |-> k = "file"]
             [] k = "none" -> e.obs = NotFound
             [] e.o = "rread" -> IF k = "file" /\ at[1].utf8 THEN e.obs = [r |-> at[1].t] ELSE Has(e.obs, "err")
             [] e.o = "rbytes" -> IF k = "file" THEN e.obs = [r |-> at[1].b] ELSE Has(e.obs, "err")
             [] e.o = "rdir" -> IF k # "dir" THEN Has(e.obs, "err")
                                ELSE /\ Has(e.obs, "r")
                                     /\ LET x == {Render(CleanOf(<< <<>> >> \o Split(e.raw)) \o <<n>>) : n \in Entries(fs, at[1].at)}
                                        IN  ToSet(e.obs.r) = x /\ Len(e.obs.r) = Cardinality(x)
RealEvent(e) ==
  /\ Keep(<<hs, st, mem>>)
  /\ IF e.o \in {"mkdir", "mkfile", "mklink", "mkspecial"}
     THEN fs' = (Names(e.at) :> (CASE e.o = "mkdir" -> [k |-> "dir"]
                                   [] e.o = "mkspecial" -> [k |-> "special"]
                                   [] e.o = "mkfile" -> [k |-> "file", b |-> e.bytes, t |-> e.text, utf8 |-> e.utf8]
                                   [] e.o = "mklink" -> [k |-> "link", to |-> Names(e.dest)])) @@ fs
     ELSE IF e.o = "rm" THEN fs' = [p \in DOMAIN fs \ {Names(e.at)} |-> fs[p]]
     ELSE Judge(RealOk(e), fs) /\ Keep(fs)

TInit == hs = Nothing /\ st = Nothing /\ mem = Nothing /\ fs = (<<>> :> [k |-> "dir"]) /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.o = "reset" -> hs' = Nothing /\ st' = Nothing /\ mem' = Nothing /\ fs' = (<<>> :> [k |-> "dir"])
       [] e.o \in {"new", "push", "join", "parent", "show", "root"} -> PathEvent(e)
       [] e.o = "order" -> OrderEvent(e)
       [] e.o \in {"id", "path", "combine"} -> StoreEvent(e)
       [] e.o \in {"bigstores", "bigids", "bigpaths", "bigcombine"} -> BigEvent(e)
       [] e.o \in {"mput", "mdel", "mread", "mbytes", "mdir", "mfile", "mcwd"} -> MemEvent(e)
       [] OTHER -> RealEvent(e)
TSpec == TInit /\ [][TNext]_<<tvars, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
