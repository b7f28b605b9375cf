------------------------------ MODULE TraceTopo ------------------------------
(* Recorded traversals and sorts, judged by TopoAbs. *)
EXTENDS TopoAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLE l
Judge(ok, e) == IF ok THEN TRUE
                ELSE IF Len(open) > 3000 THEN PrintT(<<"MISMATCH", l, ToJson([levels |-> Len(open)])>>)
                ELSE PrintT(<<"MISMATCH", l, ToJson([open |-> [i \in 1..Len(open) |-> open[i].x], done |-> done,
                                                     requested |-> asked, inprogress |-> inprog])>>)
TInit == Start(<<>>, {}) /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.o = "reset" -> StartNext(e.work, ToSet(e.refuse))
       [] e.o = "enter" -> Judge(EnterOk(e.x), e) /\ Enter(e.x, e.data)
       [] e.o = "process" -> Judge(ProcessOk(e.x, e.data), e) /\ Process(e.x, e.reqs)
       [] e.o = "exit" -> Judge(ExitOk(e.x, e.level), e) /\ Exit(e.x)
       [] e.o = "dive" -> Judge(DiveOk(e.lo, e.hi, e.d), e) /\ Dive(e.lo, e.hi, e.d)
       [] e.o = "rise" -> Judge(RiseOk(e.lo, e.hi, e.level), e) /\ Rise(e.lo, e.hi)
       [] e.o = "end" -> Judge(EndOk(ToSet(e.done), e.cycle), e) /\ UNCHANGED tvars
       [] e.o = "panic" -> Judge(FALSE, e) /\ UNCHANGED tvars
       [] e.o = "sort" -> Judge(IF Focus = "C08" THEN SortOk(e.graph, e.obs) ELSE CycleOk(e.graph, e.obs), e)
                          /\ UNCHANGED tvars
       [] e.o = "bigsort" -> /\ Assert(CertOk(e.nb, e.rank, e.loop), "not a certificate")
                             /\ Judge(IF Focus = "C08" THEN BigSortOk(e.nb, e.loop, e.obs) ELSE BigCycleOk(e.nb, e.loop, e.obs), e)
                             /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_<<tvars, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
