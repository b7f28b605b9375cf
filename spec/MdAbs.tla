-------------------------------- MODULE MdAbs --------------------------------
(* C22: sections of a document, by the code headings in it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
NL == 10
CR == 13
Tick == 96
Lead == <<35, 35, 32, 96>>       \* ## `
RECURSIVE Cat(_, _, _)
Cat(xss, a, b) == IF b < a THEN <<>> ELSE IF a = b THEN xss[a]
                  ELSE LET m == (a + b) \div 2 IN Cat(xss, a, m) \o Cat(xss, m + 1, b)
\* the pieces between the line breaks
SplitNl(t) == LET at == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = NL)
                  n == Len(at)
              IN  [k \in 1..n + 1 |-> SubSeq(t, IF k = 1 THEN 1 ELSE at[k - 1] + 1, IF k = n + 1 THEN Len(t) ELSE at[k] - 1)]
NoCr(line) == IF line # <<>> /\ line[Len(line)] = CR THEN SubSeq(line, 1, Len(line) - 1) ELSE line
\* a line ends with \n or \r\n; after the last ending there is a line only if there is text
Lines(t) == LET ls == SplitNl(t)
                n == Len(ls)
                done == [i \in 1..n - 1 |-> NoCr(ls[i])]
            IN  IF ls[n] = <<>> THEN done ELSE Append(done, ls[n])
IsHeading(line) == /\ Len(line) >= 5
                   /\ SubSeq(line, 1, 4) = Lead
                   /\ line[Len(line)] = Tick
KeyOf(line) == LET k == SubSeq(line, 5, Len(line) - 1)
               IN  IF k = <<Tick, 32, Tick, 32, Tick>> THEN <<Tick>> ELSE k
\* the starting string of a key, as the driver gives it: some text, the key, and some text
Starting(k, pre, suf) == pre \o k \o suf
StartOf(k) == Starting(k, <<60>>, <<62>>)
Heads(ls) == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : IsHeading(ls[i]))
SectionsFrom(ls, pre, suf) ==
  LET hs == Heads(ls)
      to(n) == IF n = Len(hs) THEN Len(ls) ELSE hs[n + 1] - 1
  IN  [n \in 1..Len(hs) |->
        <<KeyOf(ls[hs[n]]),
          Starting(KeyOf(ls[hs[n]]), pre, suf) \o Cat([k \in 1..to(n) - hs[n] |-> <<NL>> \o ls[hs[n] + k]], 1, to(n) - hs[n])>>]
Sections(ls) == SectionsFrom(ls, <<60>>, <<62>>)
Duplicate(secs) == \E i, j \in 1..Len(secs) : i # j /\ secs[i][1] = secs[j][1]
=============================================================================
