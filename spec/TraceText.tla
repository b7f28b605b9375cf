------------------------------ MODULE TraceText ------------------------------
(* Recorded answers of PositionDb and apply_changes::get, judged by TextAbs. *)
EXTENDS TextAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES txt, tab, brk, l
Has(r, f) == f \in DOMAIN r
Map(xs, F(_)) == [i \in 1..Len(xs) |-> F(xs[i])]
Expected(e) ==
  CASE e.o = "pos"    -> Map(e.xs, LAMBDA x : PosOf(tab, x))
    [] e.o = "off"    -> Map(e.xs, LAMBDA x : OffOf(tab, x[1], x[2]))
    [] e.o = "range"  -> Map(e.xs, LAMBDA x : RangeOf(tab, x[1], x[2]))
    [] e.o = "offs"   -> Map(e.xs, LAMBDA x : OffsOf(tab, x))
    [] e.o = "lines"  -> Map(e.xs, LAMBDA x : Tiles(brk, x[1], x[2]))
    [] e.o = "end"    -> <<Size(tab)>> \o PosOf(tab, Size(tab))[1]
    [] e.o = "apply"  -> ApplyAll(txt, e.changes)
First(xs, ys) == LET bad == {i \in 1..Len(xs) : xs[i] # ys[i]}
                 IN  IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
Judge(e) ==
  LET x == Expected(e)
  IN  IF Has(e.obs, "r") /\ e.obs.r = x THEN TRUE
      ELSE PrintT(<<"MISMATCH", l, ToJson(
             IF Has(e.obs, "r") /\ Has(e, "xs")
             THEN LET i == First(x, e.obs.r) IN [arg |-> e.xs[i], expected |-> x[i], got |-> e.obs.r[i]]
             ELSE [expected |-> x])>>)
TInit == txt = <<>> /\ tab = Table(<<>>) /\ brk = <<>> /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.o = "reset" THEN /\ txt' = e.text
                                  /\ tab' = Table(e.text)
                                  /\ brk' = Breaks(e.text, tab')
            ELSE /\ Judge(e)
                 /\ IF e.o = "apply" THEN /\ txt' = ApplyAll(txt, e.changes)
                                          /\ UNCHANGED <<tab, brk>>   \* not asked for afterwards
                    ELSE UNCHANGED <<txt, tab, brk>>
TSpec == TInit /\ [][TNext]_<<txt, tab, brk, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
