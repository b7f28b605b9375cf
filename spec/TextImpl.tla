------------------------------- MODULE TextImpl -------------------------------
(***************************************************************************)
(* The design of text-pos (over line-index) and apply-changes: an index of *)
(* line starts and of the wide characters of each line, conversions by     *)
(* correcting the column for the wide characters before it, and an index   *)
(* kept over several edits as long as the lines it is asked for are older  *)
(* than the last edit.                                                     *)
(***************************************************************************)
EXTENDS TextAbs

\* [starts |-> offsets of lines 1.., wide |-> sequence over lines of <<from, to>> in the line, len]
Index(t) ==
  LET step(acc, c) ==
        LET at == acc.len - acc.starts[Len(acc.starts)]
        IN  IF c = NL THEN [starts |-> Append(acc.starts, acc.len + 1),
                            wide |-> Append(acc.wide, <<>>), len |-> acc.len + 1]
            ELSE IF U8(c) = 1 THEN [acc EXCEPT !.len = @ + 1]
            ELSE [acc EXCEPT !.len = @ + U8(c),
                             !.wide[Len(acc.wide)] = Append(@, <<at, at + U8(c)>>)]
  IN  FoldLeft(step, [starts |-> <<0>>, wide |-> << <<>> >>, len |-> 0], t)

\* offset -> <<line, byte column>>
LineCol(ix, off) ==
  IF off < 0 \/ off > ix.len THEN <<>>
  ELSE LET line == Cardinality({i \in 2..Len(ix.starts) : ix.starts[i] <= off})
           col == off - ix.starts[line + 1]
           ws == ix.wide[line + 1]
       IN  IF \A i \in 1..Len(ws) : col <= ws[i][1] \/ ws[i][2] <= col THEN << <<line, col>> >> ELSE <<>>
Units(w) == IF w[2] - w[1] = 4 THEN 2 ELSE 1
ToWide(ix, lc) ==
  LET ws == IF lc[1] < Len(ix.wide) THEN ix.wide[lc[1] + 1] ELSE <<>>
      corr == FoldLeft(LAMBDA acc, w : IF w[2] <= lc[2] THEN acc + (w[2] - w[1]) - Units(w) ELSE acc, 0, ws)
  IN  <<lc[1], lc[2] - corr>>
RECURSIVE Widen(_, _)
Widen(ws, col) ==
  IF ws = <<>> \/ col <= ws[1][1] THEN col
  ELSE Widen(Tail(ws), col + (ws[1][2] - ws[1][1]) - Units(ws[1]))
ToUtf8(ix, lc) ==
  LET ws == IF lc[1] < Len(ix.wide) THEN ix.wide[lc[1] + 1] ELSE <<>>
  IN  <<lc[1], Widen(ws, lc[2])>>
OffsetOf(ix, lc) ==
  IF lc[1] + 1 > Len(ix.starts) THEN <<>>
  ELSE LET off == ix.starts[lc[1] + 1] + lc[2]
       IN  IF LineCol(ix, off) = <<lc>> THEN <<off>> ELSE <<>>

IPosOf(ix, off) == LET lc == LineCol(ix, off) IN IF lc = <<>> THEN <<>> ELSE <<ToWide(ix, lc[1])>>
IOffOf(ix, line, col) == OffsetOf(ix, ToUtf8(ix, <<line, col>>))

\* line-index's lines()
ITiles(ix, a, b) ==
  LET brk == SelectSeq(Tail(ix.starts), LAMBDA x : a <= x /\ x <= b)
      ends == <<a>> \o brk \o <<b>>
  IN  SelectSeq([i \in 1..Len(ends) - 1 |-> <<ends[i], ends[i + 1]>>], LAMBDA p : p[1] # p[2])

----------------------------------------------------------------------------
(* apply-changes, one ranged change: [text, ix, valid] to the same. `valid` is the first line the *)
(* index may be wrong about; 99 stands for none.                                                 *)
CharIndex(t, off) == BoundaryOf([i \in 1..Len(t) + 1 |-> [line |-> 0, col |-> Table(t)[i].off]], 0, off)
IApply(st, ch) ==
  LET r == ch.r[1]
      ix == IF st.valid <= r[3] THEN Index(st.text) ELSE st.ix
      a == IOffOf(ix, r[1], r[2])
      b == IOffOf(ix, r[3], r[4])
  IN  [text |-> IF a = <<>> \/ b = <<>> THEN st.text
                ELSE SubSeq(st.text, 1, CharIndex(st.text, a[1]) - 1) \o ch.t
                     \o SubSeq(st.text, CharIndex(st.text, b[1]), Len(st.text)),
       ix |-> ix, valid |-> r[1]]
=============================================================================
