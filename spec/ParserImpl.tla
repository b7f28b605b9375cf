------------------------------ MODULE ParserImpl ------------------------------
(***************************************************************************)
(* The design of event-parse: a list of events, some of them only reserved *)
(* (construct opened) or dead (construct abandoned); wrapping is a forward *)
(* pointer; save points are lengths; everything is resolved in one pass at *)
(* the end.  A state is a record                                           *)
(*   ev: events, ti: tokens passed (consumed or skipped trivia),           *)
(*   nb: tokens consumed, en/ex/sv: the markers handed out.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Trivia(k) == k >= 50 /\ k < 100
F0 == [x \in {} |-> 0]
ImplStart == [ev |-> <<>>, ti |-> 0, nb |-> 0, en |-> F0, ex |-> F0, sv |-> F0]

\* skipping trivia in front of the current token
RECURSIVE Skip(_, _)
Skip(s, i) == IF i < Len(s) /\ Trivia(s[i + 1][1]) THEN Skip(s, i + 1) ELSE i
\* the token index the n-th lookahead stops at
RECURSIVE Look0(_, _, _)
Look0(s, i, n) == IF n = 0 THEN Skip(s, i) ELSE Look0(s, Skip(s, i) + 1, n - 1)
Tok0(s, i) == IF i < Len(s) THEN << <<s[i + 1][1], s[i + 1][2]>> >> ELSE <<>>

\* each step gives [st |-> new state, r |-> result]
IEnter(im, h) ==
  [st |-> [im EXCEPT !.ev = Append(@, [t |-> "none"]),
                     !.en = (h :> [ev |-> Len(im.ev) + 1, nb |-> im.nb]) @@ @], r |-> 0]
IExit(im, h, k) ==
  LET m == im.en[h]
      empty == im.nb = m.nb   \* consumed since it began, or what it wraps began
  IN  [st |-> [im EXCEPT !.ev = Append([@ EXCEPT ![m.ev] = [t |-> "enter", k |-> k, p |-> 0]], [t |-> "exit"]),
                         !.en = [x \in DOMAIN @ \ {h} |-> @[x]],
                         !.ex = (h :> [ev |-> m.ev, nb |-> m.nb]) @@ @], r |-> empty]
IAbandon(im, h) == [st |-> [im EXCEPT !.en = [x \in DOMAIN @ \ {h} |-> @[x]]], r |-> 0]
IPrecede(im, x, h) ==
  LET e == im.ex[x]
      n == Len(im.ev) + 1
  IN  [st |-> [im EXCEPT !.ev = Append([@ EXCEPT ![e.ev].p = n], [t |-> "none"]),
                         !.en = (h :> [ev |-> n, nb |-> e.nb]) @@ @], r |-> 0]
IPeekN(im, s, n) ==
  [st |-> [im EXCEPT !.ti = Skip(s, @)], r |-> Tok0(s, Look0(s, im.ti, n))]
IBump(im, s) ==
  LET i == Skip(s, im.ti)
  IN  [st |-> [im EXCEPT !.ti = i + 1, !.nb = @ + 1, !.ev = Append(@, [t |-> "tok"])], r |-> Tok0(s, i)]
IError(im, e) == [st |-> [im EXCEPT !.ev = Append(@, [t |-> "err", e |-> e])], r |-> 0]
ISave(im, h) == [st |-> [im EXCEPT !.sv = (h :> [ti |-> im.ti, nb |-> im.nb, n |-> Len(im.ev)]) @@ @], r |-> 0]
IOkSince(im, h) ==
  LET m == im.sv[h]
      ok == \A i \in m.n + 1..Len(im.ev) : im.ev[i].t # "err"
      keep == [im EXCEPT !.sv = [x \in DOMAIN @ \ {h} |-> @[x]]]
  IN  [st |-> IF ok THEN keep
              ELSE [keep EXCEPT !.ti = m.ti, !.nb = m.nb, !.ev = SubSeq(@, 1, m.n)], r |-> ok]

----------------------------------------------------------------------------
(* The final pass.  acc: ev (events, those moved to the front of their     *)
(* first child taken out), ti, pend (opened but without a token yet), lvl, *)
(* fst (kind for the empty parse), out (calls made).                       *)
Deliver(acc, s) ==
  [acc EXCEPT !.out = @ \o [i \in 1..Len(acc.pend) |-> [m |-> "open", k |-> acc.pend[i]]]
                        \o << [m |-> "tok", i |-> acc.ti + 1] >>,
              !.pend = <<>>, !.ti = @ + 1]
RECURSIVE EatTrivia(_, _)
EatTrivia(acc, s) ==
  IF acc.ti < Len(s) /\ Trivia(s[acc.ti + 1][1]) THEN EatTrivia(Deliver(acc, s), s) ELSE acc

RECURSIVE Chain(_, _, _)   \* kinds, innermost first, following the pointers; dead ones end the chain
Chain(ev, i, ks) ==
  IF i = 0 \/ ev[i].t # "enter" THEN ks ELSE Chain(ev, ev[i].p, Append(ks, ev[i].k))
RECURSIVE Clear(_, _)
Clear(ev, i) ==
  IF i = 0 \/ ev[i].t # "enter" THEN ev
  ELSE Clear([ev EXCEPT ![i] = [t |-> "none"]], ev[i].p)

OpenOne(acc, k, s) ==
  LET a == IF acc.lvl # 0 THEN EatTrivia(acc, s) ELSE acc
  IN  [a EXCEPT !.pend = Append(@, k), !.lvl = @ + 1]

FinStep(acc, i, s) ==
  LET e == acc.ev[i] IN
  CASE e.t = "none" -> acc
    [] e.t = "enter" ->
         LET ks == Chain(acc.ev, i, <<>>)
             a0 == [acc EXCEPT !.ev = Clear(@, i), !.fst = IF @ = 0 THEN ks[Len(ks)] ELSE @]
         IN  FoldRight(LAMBDA k, a : OpenOne(a, k, s), ks, a0)
    [] e.t = "exit" ->
         LET a0 == IF acc.lvl = 1 THEN EatTrivia(acc, s) ELSE acc
             a1 == IF a0.pend # <<>> THEN [a0 EXCEPT !.pend = SubSeq(@, 1, Len(@) - 1)]
                   ELSE [a0 EXCEPT !.out = Append(@, [m |-> "close"])]
             a2 == [a1 EXCEPT !.lvl = @ - 1]
         IN  IF a2.lvl = 1 THEN EatTrivia(a2, s) ELSE a2
    [] e.t = "tok" -> Deliver(EatTrivia(acc, s), s)
    [] e.t = "err" -> [acc EXCEPT !.out = Append(@, [m |-> "err", e |-> e.e])]

IFinish(im, s) ==
  LET a == FoldLeft(LAMBDA acc, i : FinStep(acc, i, s),
                    [ev |-> im.ev, ti |-> 0, pend |-> <<>>, lvl |-> 0, fst |-> 0, out |-> <<>>],
                    [i \in 1..Len(im.ev) |-> i])
  IN  [lvl |-> a.lvl, out |-> IF a.ti = 0 /\ a.fst # 0
                              THEN Append(Append(a.out, [m |-> "open", k |-> a.fst]), [m |-> "close"])
                              ELSE a.out]

\* the calls as an observer writes them down
IToks(out, s) == LET ts == SelectSeq(out, LAMBDA x : x.m = "tok")
                 IN  [i \in 1..Len(ts) |-> <<s[ts[i].i][1], s[ts[i].i][2]>>]
IShape(out, s) ==
  LET xs == SelectSeq(out, LAMBDA x : x.m # "err")
  IN  [i \in 1..Len(xs) |-> CASE xs[i].m = "open" -> xs[i].k [] xs[i].m = "close" -> -1
                              [] OTHER -> s[xs[i].i][1]]

(* The rowan sink: errors wait for the next token that is no trivia.       *)
IRowan(out, s) ==
  LET flush(acc) == [acc EXCEPT !.done = @ \o [i \in 1..Len(acc.wait) |-> <<acc.wait[i], acc.a, acc.b, acc.k>>],
                                !.wait = <<>>]
      step(acc, x) ==
        CASE x.m = "err" -> [acc EXCEPT !.wait = Append(@, x.e)]
          [] x.m = "tok" -> LET t == s[x.i]
                                n == [acc EXCEPT !.a = acc.b, !.b = acc.b + t[3], !.k = t[1]]
                            IN  IF Trivia(t[1]) THEN n ELSE flush(n)
          [] OTHER -> acc
  IN  flush(FoldLeft(step, [a |-> 0, b |-> 0, k |-> -1, wait |-> <<>>, done |-> <<>>], out)).done
=============================================================================
