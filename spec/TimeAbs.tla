------------------------------ MODULE TimeAbs ------------------------------
(* C28. A timed call is [how |-> "time" or "log", m, kids, panic]: the function timed makes the   *)
(* calls `kids` itself, and panics after them if so told. Calls are numbered as they begin, from 0. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
RECURSIVE Run(_, _)
\* what comes back from a call that is the n-th: the calls that came back in that order, the number
\* of the next call to begin, and which call's panic is coming through (-1: none)
Run(c, n) ==
  LET kids == FoldLeft(LAMBDA acc, k : IF acc.panic # -1 THEN acc
                                       ELSE LET r == Run(k, acc.next)
                                            IN  [next |-> r.next, back |-> acc.back \o r.back, panic |-> r.panic],
                       [next |-> n + 1, back |-> <<>>, panic |-> -1], c.kids)
  IN  IF kids.panic # -1 THEN kids
      ELSE IF c.panic THEN [kids EXCEPT !.panic = n]
      ELSE [kids EXCEPT !.back = Append(@, [call |-> n, how |-> c.how, m |-> c.m])]
Logged(level) == level \in {"info", "debug", "trace"}
Within(d, x) == d.inner <= x /\ x <= d.outer
\* done: what each call gave, with the time in the function and the time around the call; Took(x, m):
\* the time a log record says that message m took, -1 if it says something else.
Promised(c, level, done, panic, logs, Took(_, _)) ==
  LET r == Run(c, 0)
      ls == SelectSeq([i \in 1..Len(r.back) |-> i], LAMBDA i : r.back[i].how = "log")
  IN  /\ panic = r.panic
      /\ Len(done) = Len(r.back)
      /\ \A i \in 1..Len(done) :
           LET d == done[i] IN
           /\ d.call = r.back[i].call /\ d.evals = 1 /\ d.same
           /\ r.back[i].how = "time" => Within(d, d.took)
      /\ IF Logged(level)
         THEN /\ Len(logs) = Len(ls)
              /\ \A i \in 1..Len(ls) :
                   LET d == done[ls[i]]
                       t == Took(logs[i], r.back[ls[i]].m)
                   IN  logs[i][1] = "INFO" /\ t >= 0 /\ (Within(d, t) \/ d.outer >= 1000000000)
         ELSE logs = <<>>
----------------------------------------------------------------------------
(* A time as text: digits, maybe a point and digits, and a unit.            *)
IsDigit(x) == x >= 48 /\ x <= 57
Units == << << <<115>>, 9 >>, << <<109, 115>>, 6 >>, << <<181, 115>>, 3 >>, << <<110, 115>>, 0 >> >>
RECURSIVE Strip(_)
Strip(t) == IF t # <<>> /\ t[1] = 48 THEN Strip(Tail(t)) ELSE t
Value(t) == FoldLeft(LAMBDA acc, d : 10 * acc + (d - 48), 0, t)
\* length of the longest prefix of digits
Run1(t) == IF \A i \in 1..Len(t) : IsDigit(t[i]) THEN Len(t)
           ELSE (CHOOSE i \in 1..Len(t) : ~IsDigit(t[i]) /\ \A j \in 1..i - 1 : IsDigit(t[j])) - 1
\* nanoseconds (at most 9 digits; more count as 999999999), -1 if the text is no time
Nanos(t) ==
  LET a == Run1(t)
      whole == SubSeq(t, 1, a)
      r1 == SubSeq(t, a + 1, Len(t))
      point == r1 # <<>> /\ r1[1] = 46
      r2 == IF point THEN Tail(r1) ELSE r1
      b == IF point THEN Run1(r2) ELSE 0
      frac == SubSeq(r2, 1, b)
      unit == SubSeq(r2, b + 1, Len(r2))
      us == {i \in 1..4 : Units[i][1] = unit}
  IN  IF whole = <<>> \/ (point /\ frac = <<>>) \/ us = {} THEN -1
      ELSE LET k == Units[CHOOSE i \in us : TRUE][2]
           IN  IF Len(frac) > k THEN -1
               ELSE LET ds == Strip(whole \o frac \o [i \in 1..k - Len(frac) |-> 48])
                    IN  IF Len(ds) > 9 THEN 999999999 ELSE Value(ds)
\* a record <<level, text>>
Says(x, m) == LET h == m \o <<58, 32>>
                  n == Len(h)
              IN  IF Len(x[2]) > n /\ SubSeq(x[2], 1, n) = h THEN Nanos(SubSeq(x[2], n + 1, Len(x[2]))) ELSE -1
=============================================================================
