------------------------------- MODULE TextAbs -------------------------------
(***************************************************************************)
(* What positions in a text mean.  A text is a sequence of Unicode scalar  *)
(* values; offsets count UTF-8 bytes, columns count UTF-16 code units.     *)
(* A negative offset, line or column n stands for 2^32 + n (C14, C15, C16).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NL == 10
U8(c)  == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
U16(c) == IF c < 65536 THEN 1 ELSE 2

(* The table of a text: for each boundary i in 0..n (before character i+1) *)
(* its offset, line and column.                                            *)
Table(t) ==
  LET step(acc, c) ==
        LET p == acc[Len(acc)]
        IN  Append(acc, [off |-> p.off + U8(c),
                         line |-> IF c = NL THEN p.line + 1 ELSE p.line,
                         col |-> IF c = NL THEN 0 ELSE p.col + U16(c)])
  IN  FoldLeft(step, << [off |-> 0, line |-> 0, col |-> 0] >>, t)

Size(tab) == tab[Len(tab)].off

(* The tables are sorted by offset and by (line, col): look things up by halving. *)
RECURSIVE Halve(_, _, _, _)
Halve(Below(_), lo, hi, n) ==   \* the first index in lo..hi that is not Below, n if there is none
  IF lo > hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN  IF Below(mid) THEN Halve(Below, mid + 1, hi, n) ELSE Halve(Below, lo, mid - 1, n)

PosOf(tab, off) ==
  IF off < 0 THEN <<>>
  ELSE LET i == Halve(LAMBDA k : tab[k].off < off, 1, Len(tab), 0)
       IN  IF i <= Len(tab) /\ tab[i].off = off THEN << <<tab[i].line, tab[i].col>> >> ELSE <<>>

\* the boundary at a position: 0 if there is none
BoundaryOf(tab, line, col) ==
  IF line < 0 \/ col < 0 THEN 0
  ELSE LET i == Halve(LAMBDA k : tab[k].line < line \/ (tab[k].line = line /\ tab[k].col < col), 1, Len(tab), 0)
       IN  IF i <= Len(tab) /\ tab[i].line = line /\ tab[i].col = col THEN i ELSE 0
OffOf(tab, line, col) ==
  LET i == BoundaryOf(tab, line, col) IN IF i = 0 THEN <<>> ELSE <<tab[i].off>>

RangeOf(tab, a, b) ==
  LET x == PosOf(tab, a)
      y == PosOf(tab, b)
  IN  IF x = <<>> \/ y = <<>> THEN <<>> ELSE << x[1] \o y[1] >>
OffsOf(tab, r) ==
  LET x == OffOf(tab, r[1], r[2])
      y == OffOf(tab, r[3], r[4])
  IN  IF x = <<>> \/ y = <<>> THEN <<>> ELSE << <<x[1], y[1]>> >>

\* C15: the offsets just after newlines, and the tiling of [a, b)
Breaks(t, tab) == LET is == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = NL)
                  IN  [k \in 1..Len(is) |-> tab[is[k] + 1].off]
Tiles(breaks, a, b) ==
  LET inner == SelectSeq(breaks, LAMBDA x : a < x /\ x < b)
      ends == <<a>> \o inner \o <<b>>
  IN  IF a = b THEN <<>> ELSE [i \in 1..Len(ends) - 1 |-> <<ends[i], ends[i + 1]>>]

----------------------------------------------------------------------------
(* C16: a change is [r |-> <<>> or <<range>>, t |-> text].                  *)
ApplyOne(t, ch) ==
  IF ch.r = <<>> THEN ch.t
  ELSE LET tab == Table(t)
           i == BoundaryOf(tab, ch.r[1][1], ch.r[1][2])
           j == BoundaryOf(tab, ch.r[1][3], ch.r[1][4])
       IN  IF i = 0 \/ j = 0 THEN t
           ELSE SubSeq(t, 1, i - 1) \o ch.t \o SubSeq(t, j, Len(t))
ApplyAll(t, chs) == FoldLeft(ApplyOne, t, chs)
=============================================================================
