------------------------------ MODULE TraceParse ------------------------------
(***************************************************************************)
(* Recorded histories of the real parser, judged by ParserAbs.  FOCUS says  *)
(* which property's observables are compared.  A history may come with a    *)
(* twin, an execution of the effective history (what was backtracked over,  *)
(* or looked at, left out): C03 and C04 demand that the two are alike.      *)
(***************************************************************************)
EXTENDS ParserAbs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
VARIABLES l
Has(r, f) == f \in DOMAIN r

Looks == {"peek", "peek_n", "at", "at_n"}
Answers == Looks \cup {"bump", "bumps", "eat", "exit", "leaves"}

\* offsets of a sequence of delivered tokens
Placed(toks, lens) ==
  LET step(acc, t) == [at |-> acc.at + lens[acc.i], i |-> acc.i + 1,
                       out |-> Append(acc.out, <<t[1], t[2], acc.at, acc.at + lens[acc.i]>>)]
  IN  FoldLeft(step, [at |-> 0, i |-> 1, out |-> <<>>], toks).out

\* errors as they must be located in what was delivered (got), whatever that is
Located(its, got) ==
  LET solid == SelectSeq(got, LAMBDA t : ~IsTrivia(t[1]))
      step(acc, mk) ==
        CASE mk.m = "tok" -> [acc EXCEPT !.n = @ + 1]
          [] mk.m = "err" -> [acc EXCEPT !.out = Append(@, <<mk.e, acc.n>>)]
          [] OTHER        -> acc
      raw == FoldLeft(step, [n |-> 0, out |-> <<>>], Marks(its)).out
      loc(x) == LET c == IF x[2] < Len(solid) THEN <<solid[x[2] + 1]>>
                         ELSE IF got = <<>> THEN <<>> ELSE <<got[Len(got)]>>
                IN  IF c = <<>> THEN <<x[1], 0, 0, -1>> ELSE <<x[1], c[1][3], c[1][4], c[1][1]>>
  IN  [i \in 1..Len(raw) |-> loc(raw[i])]

ErrsOf(its) == SelectSeq(Marks(its), LAMBDA mk : mk.m = "err")

FinishOk(e) ==
  LET g == e.obs
      x == last'.obs
  IN  CASE Focus = "C01" -> ~Has(g, "panic") /\ g.toks = x.toks
        [] Focus = "C02" -> /\ ~Has(g, "panic")
                            /\ SolidPart(g.shape) = x.core
                            /\ TriviaFarOut(g.shape)
                            /\ TriviaNotLast(g.shape, frames[1].items)
                            /\ Has(g, "rshape") => g.rshape = g.shape
        [] Focus = "C05" -> Has(g, "panic") \/
                            (/\ ~Has(g, "rpanic")
                             /\ g.rtoks = Placed(g.toks, g.lens)
                             /\ g.rerrs = Located(frames[1].items, g.rtoks))
        [] Focus = "C03" -> Has(e, "twin") => g = e.twin
        [] Focus = "C04" -> /\ Has(e, "twin") => g = e.twin
                            /\ Has(g, "panic") \/
                               [i \in 1..Len(g.errs) |-> g.errs[i][1]] =
                               [i \in 1..Len(ErrsOf(frames[1].items)) |-> ErrsOf(frames[1].items)[i].e]

Ok(e) ==
  IF e.o = "finish" THEN FinishOk(e)
  ELSE CASE Focus = "C04" -> e.o \in Answers => e.obs = last'.obs
         [] Focus = "C03" -> /\ e.o = "ok_since" => e.obs = last'.obs
                             /\ Has(e, "twin") => e.obs = e.twin
         [] OTHER -> Has(e.obs, "panic") => Has(last'.obs, "panic")

Judge(e) == IF Ok(e) THEN TRUE ELSE PrintT(<<"MISMATCH", l, ToJson(last')>>)

Step(e) ==
  \/ e.o = "enter" /\ Enter(e.h)
  \/ e.o = "exit" /\ Exit(e.h, e.k)
  \/ e.o = "abandon" /\ Abandon(e.h)
  \/ e.o = "precede" /\ Precede(e.x, e.h)
  \/ e.o = "peek" /\ Peek
  \/ e.o = "peek_n" /\ PeekN(e.n)
  \/ e.o = "at" /\ At(e.k)
  \/ e.o = "at_n" /\ AtN(e.n, e.k)
  \/ e.o = "bump" /\ (Bump \/ BumpPanics)
  \/ e.o = "eat" /\ Eat(e.k)
  \/ e.o = "error" /\ Error(e.e)
  \/ e.o = "bumps" /\ Bumps(e.n)
  \/ e.o = "errors" /\ Fails(e.n, e.e)
  \/ e.o = "leaves" /\ Leaves(e.h, e.n, e.k, e.full)
  \/ e.o = "save" /\ Save(e.h)
  \/ e.o = "ok_since" /\ OkSince(e.h)
  \/ e.o = "finish" /\ Finish

TInit == Start(<<>>) /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.o = "reset" THEN StartNext(e.toks)
            ELSE Step(e) /\ Judge(e)
TSpec == TInit /\ [][TNext]_<<avars, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
