------------------------------ MODULE TraceCall ------------------------------
(* Recorded timings (C28) and writings of Rust tokens (C29).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == INSTANCE TimeAbs
W == INSTANCE WriteAbs
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES files, l
Has(r, f) == f \in DOMAIN r
Judge(ok, x) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, ToJson([expected |-> x])>>)
Timed(e) == T!Promised(e.call, e.level, e.obs.done, e.obs.panic, e.obs.logs, T!Says)
WriteEvent(e) ==
  LET ob == e.obs
      lost == e.o = "again" /\ W!FileOf(files, e.from) = <<>>
      valid == IF e.o = "again" THEN TRUE ELSE e.valid
  IN  IF W!Fails(valid, e.out, e.base)
      THEN Judge(Has(ob, "panic") /\ ob.files = files, "nothing written")
      ELSE Judge(/\ Has(ob, "r") /\ W!WrittenOk(files, ob.files, e.base, ob.given[1])
                 /\ (e.o = "again" /\ ~lost) =>
                      LET x == W!FileOf(ob.files, e.base) IN
                      x # <<>> /\ x[1].lines = W!FileOf(files, e.from)[1].lines,
                 "the same tokens, formatted")
TInit == files = <<>> /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.o = "reset" -> files' = <<>>
       [] e.o = "timed" -> Judge(Timed(e), T!Run(e.call, 0)) /\ files' = files
       [] e.o = "put" -> files' = e.obs.files
       [] e.o \in {"write", "again"} -> WriteEvent(e) /\ files' = e.obs.files
TSpec == TInit /\ [][TNext]_<<files, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
