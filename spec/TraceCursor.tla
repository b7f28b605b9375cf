----------------------------- MODULE TraceCursor -----------------------------
(* Recorded cursors, judged by CursorAbs. *)
EXTENDS CursorAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES behind, ahead, over, marks, l
Has(r, f) == f \in DOMAIN r
Mismatch(x) == PrintT(<<"MISMATCH", l, ToJson(x)>>)
\* what is said after every operation
Now(b, ah, ov) == [idx |-> Len(b) + ov, cur |-> Cur(ah)]
Move(n, e, r) ==
  LET b == behind \o SubSeq(ahead, 1, n)
      ah == SubSeq(ahead, n + 1, Len(ahead))
      ov == IF e.o = "bump" THEN BumpOver(ahead, over) ELSE over
      xs == {[r |-> y] @@ Now(b, ah, ov) : y \in r}
  IN  /\ behind' = b /\ ahead' = ah /\ over' = ov /\ marks' = marks
      /\ IF e.obs \in xs THEN TRUE ELSE Mismatch(xs)
Answer(e, x) == /\ UNCHANGED <<behind, ahead, over>>
                /\ IF e.obs = x THEN TRUE ELSE Mismatch(x)
TInit == behind = <<>> /\ ahead = <<>> /\ over = 0 /\ marks = <<>> /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.o = "reset" -> behind' = <<>> /\ ahead' = e.bytes /\ over' = 0 /\ marks' = <<>>
       [] e.o = "bump" -> Move(One(ahead), e, {TRUE})
       [] e.o = "while" -> Move(While(ahead, ToSet(e.set)), e, {TRUE})
       [] e.o = "eat" -> Move(IF HasPrefix(ahead, e.p) THEN Len(e.p) ELSE 0, e, MayHave(ahead, over, e.p))
       [] e.o = "next_str" -> Move(ToNextChar(ahead), e, {TRUE})
       [] e.o = "mark" -> marks' = Append(marks, Len(behind) + over) /\ Answer(e, [r |-> TRUE] @@ Now(behind, ahead, over))
       [] OTHER ->
          LET s == Since(behind, marks[e.m])
          IN  /\ marks' = marks
              /\ Answer(e, CASE e.o = "since" -> [r |-> s] @@ Now(behind, ahead, over)
                             [] e.o = "did" -> [r |-> Len(behind) + over > marks[e.m]] @@ Now(behind, ahead, over)
                             [] e.o = "non_empty" -> IF s = <<>> THEN [panic |-> TRUE] ELSE [r |-> s] @@ Now(behind, ahead, over))
TSpec == TInit /\ [][TNext]_<<behind, ahead, over, marks, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
