------------------------------ MODULE WriteAbs ------------------------------
(* C29. A directory of files and what writing does to it. Tokens are <<kind, text>> with kind 1 an  *)
(* opening, 2 a closing delimiter, else 0.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
\* a comma before a closing delimiter says nothing
Norm(ts) == LET keep == SelectSeq([i \in 1..Len(ts) |-> i],
                                  LAMBDA i : ~(ts[i] = <<0, ",">> /\ i < Len(ts) /\ ts[i + 1][1] = 2))
            IN  [j \in 1..Len(keep) |-> ts[keep[j]]]
\* writing fails, leaving everything as it was, if there is no place for it or it is no Rust file
Fails(valid, out, base) == ~valid \/ out # "dir" \/ \E i \in 1..Len(base) : base[i] = 47
----------------------------------------------------------------------------
(* Formatted: lines are indented by four for each delimiter open at their start (not counting those *)
(* they begin by closing), and each statement or item has lines of its own.                         *)
Opens == {40, 91, 123}
Closes == {41, 93, 125}
Quote == 34
Space == 32
RECURSIVE Indent(_)
Indent(t) == IF t # <<>> /\ t[1] = Space THEN 1 + Indent(Tail(t)) ELSE 0
RECURSIVE Closers(_)
Closers(t) == IF t # <<>> /\ t[1] \in Closes THEN 1 + Closers(Tail(t)) ELSE 0
\* what a line (without indentation) does to the depth; whether it holds to one item a line
LineStep(acc, x) ==
  IF acc.quote THEN [acc EXCEPT !.quote = x # Quote]
  ELSE LET a == [acc EXCEPT !.ok = @ /\ (~acc.full \/ x \in {44, 59, 41}),     \* after the end , ; or )
                            !.full = @ \/ (acc.d = 0 /\ x = 59)]
       IN  CASE x = Quote -> [a EXCEPT !.quote = TRUE]
             [] x \in Opens -> [a EXCEPT !.d = @ + 1]
             [] x \in Closes -> [a EXCEPT !.d = @ - 1, !.full = @ \/ (acc.d = 1 /\ x = 125)]
             [] OTHER -> a
IsComment(t) == Len(t) >= 2 /\ t[1] = 47 /\ t[2] = 47
OfLine(t) == IF IsComment(t) THEN [d |-> 0, ok |-> TRUE]
             ELSE FoldLeft(LineStep, [d |-> 0, ok |-> TRUE, full |-> FALSE, quote |-> FALSE], t)
Formatted(lines) ==
  LET end == FoldLeft(LAMBDA acc, t :
               LET n == Indent(t)
                   body == SubSeq(t, n + 1, Len(t))
                   f == OfLine(body)
               IN  IF body = <<>> THEN [acc EXCEPT !.ok = @ /\ n = 0]
                   ELSE [d |-> acc.d + f.d,
                         ok |-> acc.ok /\ f.ok /\ n = 4 * (acc.d - Closers(body))],
               [d |-> 0, ok |-> TRUE], lines)
  IN  end.ok /\ end.d = 0
----------------------------------------------------------------------------
(* Files are [name, lines, tokens]; given: the tokens written.              *)
FileOf(fs, name) == SelectSeq(fs, LAMBDA f : f.name = name)
Others(fs, name) == {fs[i] : i \in {k \in 1..Len(fs) : fs[k].name # name}}
WrittenOk(before, after, base, given) ==
  LET f == FileOf(after, base)
  IN  /\ Len(f) = 1
      /\ Len(f[1].tokens) = 1
      /\ Norm(f[1].tokens[1]) = Norm(given)
      /\ Formatted(f[1].lines)
      /\ Others(after, base) = Others(before, base)
=============================================================================
