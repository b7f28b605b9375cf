------------------------------ MODULE TraceChain ------------------------------
(* Recorded histories of the real chain maps, checked against MapAbs. *)
EXTENDS MapAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l,
          seen,   \* the contents that the code last showed
          off     \* the code has gone another way than MapAbs before: C07 is then judged by `seen` alone

Has(r, f) == f \in DOMAIN r

Agree(exp, got) ==
  IF Has(got, "panic") THEN FALSE
  ELSE LET op == last'
           sel == Has(op, "sel")
           t == Touched(op)
       IN  IF Focus = "C06"
           THEN /\ (IF Has(op, "part") THEN Selection(op.part.f, op.part.c, got.r) ELSE got.r = exp.r)
                /\ Has(got, "snap") => \A h \in t : got.snap[h+1] = exp.snap[h+1]
           ELSE Has(got, "snap") => /\ \A h \in Handles \ t : got.snap[h+1] = seen[h+1]
                                    /\ op.o = "clone" => \A h \in t : got.snap[h+1] = seen[op.m+1]

\* what happened in one of several threads, each with a map of its own
Thread(e) == Has(e, "thread")
ParOk(e) == CASE off \/ Focus # "C07" -> TRUE
              [] e.thread = 0 -> \A h \in Handles : e.obs.snap[h+1] = last'.obs.snap[h+1]
              [] OTHER -> Has(e.obs, "r") /\ IF Has(last', "part") THEN Selection(last'.part.f, last'.part.c, e.obs.r)
                                             ELSE e.obs.r = last'.obs.r

Judge(e) == IF (IF Thread(e) THEN ParOk(e) ELSE Agree(last'.obs, e.obs)) THEN TRUE
            ELSE PrintT(<<"MISMATCH", l, ToJson(last')>>)

Part(o, h, c, ms) == /\ maps' = ms
                     /\ last' = [o |-> o, m |-> h, part |-> [f |-> maps[h], c |-> c],
                                 obs |-> [r |-> 0, snap |-> Snap(ms)]]

Differs(e) == \/ ~Has(e.obs, "r")
              \/ ~Has(last', "part") /\ e.obs.r # last'.obs.r
              \/ Has(e.obs, "snap") /\ e.obs.snap # last'.obs.snap
Step(e) ==
  \/ e.o = "new" /\ New(e.m)
  \/ e.o = "insert" /\ Insert(e.m, e.k, e.v)
  \/ e.o = "get" /\ Get(e.m, e.k)
  \/ e.o = "empty" /\ IsEmpty(e.m)
  \/ e.o = "iter" /\ Iter(e.m)
  \/ e.o = "iterpart" /\ Part(e.o, e.m, e.c, maps)
  \/ e.o = "getmut" /\ GetMut(e.m, e.k, e.v)
  \/ e.o = "remove" /\ RemoveKey(e.m, e.k)
  \/ e.o = "itermut" /\ IterMut(e.m, e.v)
  \/ e.o = "drain" /\ Drain(e.m)
  \/ e.o = "drainpart" /\ Part(e.o, e.m, e.c, Set(e.m, Empty))
  \/ e.o = "consolidate" /\ Consolidate(e.m)
  \/ e.o = "extend" /\ Extend(e.m, e.xs)
  \/ e.o = "collect" /\ CollectInto(e.m, e.xs)
  \/ e.o = "array" /\ FromArray(e.m, e.xs)
  \/ e.o = "churn" /\ Churn(e.m, e.n, e.mod, e.v)
  \/ e.o = "fill" /\ Fill(e.m, e.lo, e.hi, e.v)
  \/ e.o = "append" /\ Append2(e.m, e.b)
  \/ e.o = "clone" /\ Clone(e.m, e.b)
  \/ e.o = "intoiter" /\ IntoIter(e.m)
  \/ e.o = "intoiterpart" /\ Part(e.o, e.m, e.c, Set(e.m, Empty))

Nones == [i \in 1..Cardinality(Handles) |-> <<>>]
TInit == Init /\ l = 1 /\ seen = Nones /\ off = FALSE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.o = "reset" THEN /\ maps' = [h \in Handles |-> Empty] /\ last' = [o |-> "init"]
                                  /\ seen' = Nones /\ off' = FALSE
            ELSE /\ Step(e) /\ Judge(e)
                 /\ seen' = IF Has(e.obs, "snap") THEN e.obs.snap ELSE seen
                 /\ off' = (off \/ (~Thread(e) /\ Differs(e)))
TSpec == TInit /\ [][TNext]_<<vars, l, seen, off>>
TView == <<maps, l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
