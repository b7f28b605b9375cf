------------------------------ MODULE TraceMark ------------------------------
(* Recorded lives of markers, judged by MarkAbs. *)
EXTENDS MarkAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES debug, l
Judge(ok, x) == IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", l, ToJson([expected |-> x, debug |-> debug])>>)
Quiet(e) == Judge("panic" \notin DOMAIN e.obs, "no panic")
TInit == Start /\ debug = FALSE /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ debug' = IF e.o = "reset" THEN e.debug ELSE debug
     /\ CASE e.o = "reset" -> Fresh
          [] e.o \in {"enter", "precede"} -> Quiet(e) /\ Make("P")
          [] e.o = "mark" -> Quiet(e) /\ Make("S")
          [] e.o \in {"exit", "abandon", "since", "did"} -> Assert(Can(e.m), "not as documented") /\ Quiet(e) /\ Gone(e.m)
          [] e.o = "drop" -> /\ Assert(Can(e.m), "not as documented")
                             /\ Judge(("panic" \in DOMAIN e.obs) = Noticed(e.m, debug), "noticed")
                             /\ Gone(e.m)
          [] e.o = "lost" -> /\ Assert(Can(e.m), "not as documented")
                             /\ Judge("ours" \in DOMAIN e.obs /\ e.obs.ours, "the panic that was coming through")
                             /\ Gone(e.m)
          [] OTHER -> Quiet(e) /\ UNCHANGED mvars
TSpec == TInit /\ [][TNext]_<<mvars, debug, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
