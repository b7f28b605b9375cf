------------------------------- MODULE TracePat -------------------------------
(* Recorded checks of pattern matches, judged by PatAbs. *)
EXTENDS PatAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l
Field(r, f) == f \in DOMAIN r
Plain(e) == /\ \A t \in 1..Len(e.sig) : t \in Inhabited(e.sig)
            /\ \A k \in 1..Len(e.pats) : ~HasNever(e.pats[k])
Wrong(e) ==
  LET wf == \A k \in 1..Len(e.pats) : WellFormed(e.sig, e.pats[k], e.ty)
      set == ToSet(e.obs.r.unreachable)
  IN  IF ~wf THEN (IF Focus = "C17" THEN <<>>
                   ELSE IF Field(e.obs, "panic") \/ (Plain(e) /\ ~Field(e.obs, "err")) THEN <<"an error">> ELSE <<>>)
      ELSE IF ~Field(e.obs, "r") THEN <<"a result">>
      ELSE IF Focus = "C17"
      THEN (IF MissingOk(e.sig, e.ty, e.pats, e.obs.r.missing, e.lang # "fewer") THEN <<>>
            ELSE <<[unmatched |-> {v \in Tests(e.sig, e.ty, e.pats \o e.obs.r.missing) : Hit(e.pats, v) = {}}]>>)
      ELSE IF set = Unreachable(e.sig, e.ty, e.pats) THEN <<>> ELSE <<[unreachable |-> Unreachable(e.sig, e.ty, e.pats)]>>
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l]
                w == IF e.o = "reset" THEN <<>> ELSE Wrong(e)
            IN  IF w = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", l, ToJson([expected |-> w[1]])>>)
TSpec == TInit /\ [][TNext]_l
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
