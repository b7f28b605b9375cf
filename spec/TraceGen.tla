------------------------------ MODULE TraceGen ------------------------------
(* Recorded makings of code, judged by GenAbs. Files are given by digests of their text, "" for none. *)
EXTENDS GenAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ok(e) == IF e.rules = <<>> \/ ~e.parses THEN e.parses ELSE \A i \in 1..Len(e.rules) : Supported(e.rules[i])
Judge(ok, x) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, ToJson([expected |-> x])>>)
TInit == l = 1 /\ Start
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.o = "reset" THEN made' = None
     ELSE IF Ok(e)
     THEN /\ Judge(~e.obs.panic /\ Fits(e.id, e.obs.files) /\ e.obs.others = e.others,
                   [panic |-> FALSE, files |-> IF e.id \in DOMAIN made THEN made[e.id] ELSE <<"any">>])
          /\ IF e.id \in DOMAIN made THEN UNCHANGED made ELSE Make(e.id, e.obs.files)
     ELSE Judge(e.obs.panic /\ e.obs.files = e.before /\ e.obs.others = e.others, [panic |-> TRUE, files |-> e.before]) /\ UNCHANGED made
TSpec == TInit /\ [][TNext]_<<made, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
