------------------------------ MODULE ParserAbs ------------------------------
(***************************************************************************)
(* What an event-based parser means to its user: a forest under            *)
(* construction over a token source.  One action per public call; `last`   *)
(* is the call with its result.  The oracle for C01..C05.                  *)
(*                                                                         *)
(* A source token is <<kind, text, length>>: kinds below 50 are ordinary,  *)
(* 50..99 trivia, 100 and up are kinds of constructs.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLES src,     \* the token source
          pos,     \* how many non-trivia tokens were consumed
          frames,  \* open constructs, outermost first; frames[1] is the document
          saves,   \* save points not yet asked: id -> what it was then
          nerr,    \* errors recorded (and not backtracked over)
          nid,     \* the next construct id
          nsv,     \* the next save id
          last
avars == <<src, pos, frames, saves, nerr, nid, nsv, last>>

IsTrivia(k) == k >= 50 /\ k < 100
Solid(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : ~IsTrivia(s[i][1]))

Doc == [h |-> 0, of |-> 0, items |-> <<>>]
NoSaves == [x \in {} |-> 0]

Start(s) == /\ src = s /\ pos = 0 /\ frames = <<Doc>> /\ saves = NoSaves
            /\ nerr = 0 /\ nid = 1 /\ nsv = 1 /\ last = [o |-> "reset"]
StartNext(s) == /\ src' = s /\ pos' = 0 /\ frames' = <<Doc>> /\ saves' = NoSaves
                /\ nerr' = 0 /\ nid' = 1 /\ nsv' = 1 /\ last' = [o |-> "reset"]

Depth == Len(frames)
Top == frames[Depth]
Record(item) == [frames EXCEPT ![Depth].items = Append(@, item)]
Tell(op, r) == last' = op @@ [obs |-> [r |-> r]]
Same(vs) == UNCHANGED vs

\* what a look n tokens ahead shows
Ahead(n) == LET sol == Solid(src)
            IN  IF pos + n + 1 <= Len(sol) THEN <<src[sol[pos + n + 1]]>> ELSE <<>>
Shown(t) == IF t = <<>> THEN <<>> ELSE << <<t[1][1], t[1][2]>> >>
KindAhead(n, k) == Ahead(n) # <<>> /\ Ahead(n)[1][1] = k

RECURSIVE HasTok(_), AnyTok(_)
HasTok(it) == \/ it.t = "tok"
              \/ it.t = "node" /\ AnyTok(it.sub)
AnyTok(its) == \E i \in 1..Len(its) : HasTok(its[i])

----------------------------------------------------------------------------
Enter(h) ==
  /\ h = nid
  /\ frames' = Append(frames, [h |-> h, of |-> 0, items |-> <<>>])
  /\ nid' = nid + 1
  /\ Tell([o |-> "enter", h |-> h], 0)
  /\ Same(<<src, pos, saves, nerr, nsv>>)

\* Save points taken inside a construct are of no use once it is closed.
Usable(svs, d) == [s \in {x \in DOMAIN svs : Len(svs[x].frames) < d} |-> svs[s]]
Below == SubSeq(frames, 1, Depth - 1)
Join(its) == [Below EXCEPT ![Depth - 1].items = @ \o its]

Exit(h, k) ==
  /\ Depth > 1 /\ Top.h = h
  /\ frames' = Join(<< [t |-> "node", id |-> h, k |-> k, sub |-> Top.items] >>)
  /\ saves' = Usable(saves, Depth)
  /\ Tell([o |-> "exit", h |-> h, k |-> k], ~AnyTok(Top.items))
  /\ Same(<<src, pos, nerr, nid, nsv>>)

Abandon(h) ==
  /\ Depth > 1 /\ Top.h = h
  /\ frames' = Join(Top.items)
  /\ saves' = Usable(saves, Depth)
  /\ Tell([o |-> "abandon", h |-> h], 0)
  /\ Same(<<src, pos, nerr, nid, nsv>>)

\* the completed constructs that may be wrapped now
Wrappable == {i \in 1..Len(Top.items) : Top.items[i].t = "node" /\ Top.items[i].id # Top.of}

Precede(x, h) ==
  /\ h = nid
  /\ \E i \in Wrappable :
       /\ Top.items[i].id = x
       /\ frames' = Append([frames EXCEPT ![Depth].items = SubSeq(@, 1, i - 1)],
                           [h |-> h, of |-> x, items |-> SubSeq(Top.items, i, Len(Top.items))])
       \* a save point does not survive the wrapping of something older than it
       /\ saves' = [s \in {y \in DOMAIN saves : saves[y].nid <= x} |-> saves[s]]
  /\ nid' = nid + 1
  /\ Tell([o |-> "precede", x |-> x, h |-> h], 0)
  /\ Same(<<src, pos, nerr, nsv>>)

Look(op, r) == Tell(op, r) /\ Same(<<src, pos, frames, saves, nerr, nid, nsv>>)
Peek       == Look([o |-> "peek"], Shown(Ahead(0)))
PeekN(n)   == Look([o |-> "peek_n", n |-> n], Shown(Ahead(n)))
At(k)      == Look([o |-> "at", k |-> k], KindAhead(0, k))
AtN(n, k)  == Look([o |-> "at_n", n |-> n, k |-> k], KindAhead(n, k))

Consume == /\ pos' = pos + 1
           /\ frames' = Record([t |-> "tok"])
           /\ Same(<<src, saves, nerr, nid, nsv>>)
Bump == /\ Ahead(0) # <<>>
        /\ Consume
        /\ Tell([o |-> "bump"], Shown(Ahead(0)))
BumpPanics == /\ Ahead(0) = <<>>
              /\ last' = [o |-> "bump", obs |-> [panic |-> TRUE]]
              /\ Same(<<src, pos, frames, saves, nerr, nid, nsv>>)

Fail(e) == /\ frames' = Record([t |-> "err", e |-> e])
           /\ nerr' = nerr + 1
           /\ Same(<<src, pos, saves, nid, nsv>>)
Error(e) == Fail(e) /\ Tell([o |-> "error", e |-> e], 0)
Eat(k) == /\ IF KindAhead(0, k) THEN Consume ELSE Fail(10000 + k)
          /\ Tell([o |-> "eat", k |-> k], IF KindAhead(0, k) THEN Shown(Ahead(0)) ELSE <<>>)

(* Many calls at once: n of the same kind after each other, for histories longer than any small     *)
(* number can count. The answers are those of the calls, in order.                                  *)
Bumps(n) ==
  \E sol \in {Solid(src)} :
      /\ pos + n <= Len(sol)
      /\ pos' = pos + n
      /\ frames' = [frames EXCEPT ![Depth].items = @ \o [i \in 1..n |-> [t |-> "tok"]]]
      /\ Tell([o |-> "bumps", n |-> n], [i \in 1..n |-> Shown(<<src[sol[pos + i]]>>)])
      /\ Same(<<src, saves, nerr, nid, nsv>>)
Fails(n, e) ==
  /\ frames' = [frames EXCEPT ![Depth].items = @ \o [i \in 1..n |-> [t |-> "err", e |-> e + i - 1]]]
  /\ nerr' = nerr + n
  /\ Tell([o |-> "errors", n |-> n, e |-> e], 0)
  /\ Same(<<src, pos, saves, nid, nsv>>)
\* constructs with one token each, or none
Leaves(h, n, k, full) ==
  \E sub \in {IF full THEN <<[t |-> "tok"]>> ELSE <<>>} :
      /\ h = nid
      /\ full => pos + n <= Len(Solid(src))
      /\ pos' = IF full THEN pos + n ELSE pos
      /\ frames' = [frames EXCEPT ![Depth].items =
                      @ \o [i \in 1..n |-> [t |-> "node", id |-> h + i - 1, k |-> k, sub |-> sub]]]
      /\ nid' = nid + n
      /\ Tell([o |-> "leaves", h |-> h, n |-> n, k |-> k, full |-> full], [i \in 1..n |-> ~full])
      /\ Same(<<src, saves, nerr, nsv>>)

Save(h) == /\ h = nsv
           /\ saves' = (h :> [pos |-> pos, frames |-> frames, nerr |-> nerr, nid |-> nid]) @@ saves
           /\ nsv' = nsv + 1
           /\ Tell([o |-> "save", h |-> h], 0)
           /\ Same(<<src, pos, frames, nerr, nid>>)

OkSince(h) ==
  /\ h \in DOMAIN saves
  /\ IF saves[h].nerr = nerr
     THEN /\ saves' = [s \in DOMAIN saves \ {h} |-> saves[s]]
          /\ Same(<<pos, frames, nerr, nid>>)
     ELSE /\ Len(saves[h].frames) = Depth   \* constructs opened since must have been closed
          /\ pos' = saves[h].pos
          /\ frames' = saves[h].frames
          /\ nerr' = saves[h].nerr
          /\ nid' = saves[h].nid
          /\ saves' = [s \in {x \in DOMAIN saves : x < h} |-> saves[s]]
  /\ Tell([o |-> "ok_since", h |-> h], saves[h].nerr = nerr)
  /\ Same(<<src, nsv>>)

----------------------------------------------------------------------------
(* What must come out at the end, if everything is inside one construct.   *)

Roots == SelectSeq(frames[1].items, LAMBDA it : it.t # "err")
Complete == Depth = 1 /\ Len(Roots) = 1 /\ Roots[1].t = "node"

\* C01: everything up to the first token left
Delivered(s, p) == LET sol == Solid(s)
                   IN  SubSeq(s, 1, IF p < Len(sol) THEN sol[p + 1] - 1 ELSE Len(s))

\* the calls made, in order
RECURSIVE Marks(_), MarksOf(_)
Marks(its) ==  \* by halves: of long sequences, too
  LET n == Len(its)
  IN  CASE n = 0 -> <<>>
        [] n = 1 -> MarksOf(its[1])
        [] OTHER -> Marks(SubSeq(its, 1, n \div 2)) \o Marks(SubSeq(its, n \div 2 + 1, n))
MarksOf(it) ==
  CASE it.t = "tok"  -> << [m |-> "tok"] >>
    [] it.t = "err"  -> << [m |-> "err", e |-> it.e] >>
    [] it.t = "node" -> IF HasTok(it) THEN << [m |-> "open", k |-> it.k] >> \o Marks(it.sub) \o << [m |-> "close"] >>
                        ELSE Marks(it.sub)

\* C02: the tree without its trivia: kinds of constructs and tokens, -1 for the end of a construct
Core(its, s) ==
  LET step(acc, mk) ==
        CASE mk.m = "tok"   -> [acc EXCEPT !.n = @ + 1, !.out = Append(@, s[acc.sol[acc.n + 1]][1])]
          [] mk.m = "open"  -> [acc EXCEPT !.out = Append(@, mk.k)]
          [] mk.m = "close" -> [acc EXCEPT !.out = Append(@, -1)]
          [] OTHER          -> acc
      full == FoldLeft(step, [n |-> 0, out |-> <<>>, sol |-> Solid(s)], Marks(its)).out
      root == SelectSeq(its, LAMBDA it : it.t # "err")[1]
  IN  IF HasTok(root) THEN full ELSE <<root.k, -1>>

\* C02: the rule for trivia. They are inside the outermost construct, and first in no other.
SolidPart(shape) == SelectSeq(shape, LAMBDA x : ~IsTrivia(x))
TriviaFarOut(shape) ==
  LET step(acc, x) ==
        IF IsTrivia(x) THEN [acc EXCEPT !.ok = @ /\ acc.d >= 1 /\ (acc.d > 1 => acc.prev < 100), !.prev = x]
        ELSE [acc EXCEPT !.d = @ + (IF x >= 100 THEN 1 ELSE IF x = -1 THEN -1 ELSE 0), !.prev = x]
  IN  FoldLeft(step, [d |-> 0, prev |-> 0, ok |-> TRUE], shape).ok

\* how many tokens came before constructs that got none
RECURSIVE Bare(_, _)
Bare(its, acc) ==
  FoldLeft(LAMBDA a, it :
             CASE it.t = "tok" -> [a EXCEPT !.n = @ + 1]
               [] it.t = "err" -> a
               [] OTHER -> IF HasTok(it) THEN Bare(it.sub, a) ELSE [a EXCEPT !.at = @ \cup {a.n}],
           acc, its)
\* no trivia at the end of a construct, either, unless one without tokens was completed there
TriviaNotLast(shape, its) ==
  LET \* pend: trivia just seen, inside more than the outermost construct
      step(acc, x) ==
        CASE IsTrivia(x) -> [acc EXCEPT !.pend = acc.d > 1]
          [] x = -1      -> [acc EXCEPT !.d = @ - 1, !.pend = FALSE,
                                        !.ok = @ /\ (acc.pend => acc.n \in acc.bare)]
          [] x >= 100    -> [acc EXCEPT !.d = @ + 1, !.pend = FALSE]
          [] OTHER       -> [acc EXCEPT !.n = @ + 1, !.pend = FALSE]
  IN  FoldLeft(step, [d |-> 0, n |-> 0, pend |-> FALSE, ok |-> TRUE, bare |-> Bare(its, [n |-> 0, at |-> {}]).at], shape).ok

\* C05: <<error, start, end, kind or -1>>
Errors(its, s, p) ==
  LET del == Delivered(s, p)
      sol == Solid(s)
      startOf(i) == FoldLeft(LAMBDA acc, t : acc + t[3], 0, SubSeq(s, 1, i - 1))
      step(acc, mk) ==
        CASE mk.m = "tok" -> [acc EXCEPT !.n = @ + 1]
          [] mk.m = "err" -> [acc EXCEPT !.out = Append(@, <<mk.e, acc.n>>)]
          [] OTHER        -> acc
      raw == FoldLeft(step, [n |-> 0, out |-> <<>>], Marks(its)).out
      located(x) == LET i == IF x[2] < p THEN sol[x[2] + 1] ELSE Len(del)
                    IN  IF i = 0 THEN <<x[1], 0, 0, -1>>
                        ELSE <<x[1], startOf(i), startOf(i) + s[i][3], s[i][1]>>
  IN  [i \in 1..Len(raw) |-> located(raw[i])]

Out(its, s, p) ==
  LET del == Delivered(s, p)
  IN  [toks |-> [i \in 1..Len(del) |-> <<del[i][1], del[i][2]>>],
       core |-> Core(its, s), errs |-> Errors(its, s, p)]

Finish == /\ Complete
          /\ last' = [o |-> "finish", obs |-> Out(frames[1].items, src, pos)]
          /\ Same(<<src, pos, frames, saves, nerr, nid, nsv>>)
=============================================================================
