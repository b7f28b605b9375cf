------------------------------- MODULE MCParse -------------------------------
(* The event-list design and the forest it stands for, in lockstep.        *)
EXTENDS ParserAbs
CONSTANTS Sources,      \* the token sources
          MaxOps, MaxIds, MaxDepth, MaxErr, MaxSaves,
          Kinds,        \* those looked for
          Looks         \* whether pure lookahead is explored
VARIABLES im, ops
I == INSTANCE ParserImpl
vars == <<avars, im, ops>>

KindOf(h) == 100 + h

Init == /\ \E s \in Sources : Start(s)
        /\ im = I!ImplStart
        /\ ops = 0

\* both sides do the same call and must answer alike
Both(x) == /\ im' = x.st
           /\ ops' = ops + 1
           /\ Assert(last'.obs.r = x.r, <<"answers differ", last', x.r>>)

RootDone == Depth = 1 /\ Roots # <<>>   \* one root only
DoEnter == /\ nid <= MaxIds /\ Depth < MaxDepth /\ ~RootDone
           /\ Enter(nid) /\ Both(I!IEnter(im, nid))
DoExit == /\ Depth > 1 /\ Exit(Top.h, KindOf(Top.h)) /\ Both(I!IExit(im, Top.h, KindOf(Top.h)))
DoAbandon == /\ Depth > 1
             \* at the top, what is left must be one construct
             /\ (Depth = 2 => \A i \in 1..Len(Top.items) : Top.items[i].t # "tok")
             /\ (Depth = 2 => Cardinality({i \in 1..Len(Top.items) : Top.items[i].t = "node"}) <= 1)
             /\ Abandon(Top.h) /\ Both(I!IAbandon(im, Top.h))
DoPrecede == /\ nid <= MaxIds /\ Depth < MaxDepth
             /\ \E x \in {Top.items[i].id : i \in Wrappable} :
                  Precede(x, nid) /\ Both(I!IPrecede(im, x, nid))
DoBump == Depth > 1 /\ Bump /\ Both(I!IBump(im, src))
DoEat == /\ Depth > 1 /\ \E k \in Kinds :
              /\ Eat(k)
              /\ nerr' <= MaxErr
              /\ Both(IF KindAhead(0, k) THEN I!IBump(im, src)
                      ELSE [st |-> I!IError(I!IPeekN(im, src, 0).st, 10000 + k).st, r |-> <<>>])
\* names an error: those recorded before and after backtracking differ
ErrId == nsv * 10 + nerr
DoError == nerr < MaxErr /\ LET e == ErrId IN Error(e) /\ Both(I!IError(im, e))
DoPeek == Peek /\ Both(I!IPeekN(im, src, 0))
DoPeekN == \E n \in 0..2 : PeekN(n) /\ Both(I!IPeekN(im, src, n))
DoAtN == \E n \in 0..1, k \in Kinds :
           /\ AtN(n, k)
           /\ LET x == I!IPeekN(im, src, n) IN Both([st |-> x.st, r |-> x.r # <<>> /\ x.r[1][1] = k])
DoSave == nsv <= MaxSaves /\ Save(nsv) /\ Both(I!ISave(im, nsv))
DoOkSince == \E h \in DOMAIN saves : OkSince(h) /\ Both(I!IOkSince(im, h))

DoFinish ==
  /\ Finish
  /\ im' = im /\ ops' = ops + 1
  /\ LET f == I!IFinish(im, src)
         sh == I!IShape(f.out, src)
         x == last'.obs
     IN  /\ Assert(f.lvl = 0, "unbalanced")
         /\ Assert(I!IToks(f.out, src) = x.toks, <<"C01", I!IToks(f.out, src), x>>)
         /\ Assert(SolidPart(sh) = x.core, <<"C02", sh, x>>)
         /\ Assert(TriviaFarOut(sh), <<"C02 trivia", sh, x>>)
         /\ Assert(TriviaNotLast(sh, frames[1].items), <<"C02 trivia at the end", sh, x>>)
         /\ Assert(I!IRowan(f.out, src) = x.errs, <<"C05", I!IRowan(f.out, src), x>>)

Next == /\ ops < MaxOps
        /\ last.o # "finish"
        /\ \/ DoEnter \/ DoExit \/ DoAbandon \/ DoPrecede \/ DoBump \/ DoEat \/ DoError
           \/ DoPeek \/ (Looks /\ (DoPeekN \/ DoAtN)) \/ DoSave \/ DoOkSince \/ DoFinish
Spec == Init /\ [][Next]_vars

View == <<src, pos, frames, saves, nerr, nid, nsv, im, last.o = "finish">>

Tk(k) == <<k, IF k >= 50 THEN " " ELSE IF k = 1 THEN "a" ELSE "bc", IF k = 2 THEN 2 ELSE 1>>
\* tokens without text, as generated by lexers at the end of the input, or for layout
Nil(k) == <<k, "", 0>>
Words(n) == UNION {[1..m -> {1, 50}] : m \in 0..n}
Words2(n) == UNION {[1..m -> {1, 2, 50}] : m \in 0..n}
SrcOf(ws) == {[i \in 1..Len(w) |-> Tk(w[i])] : w \in ws}
Src2 == SrcOf({w \in Words(2) : TRUE})
Src3 == SrcOf(Words(3))
Src4 == SrcOf(Words2(4))
SrcTree == SrcOf({<<1, 2>>, <<50, 1, 50, 2, 50>>, <<50>>, <<>>})
SrcSave == SrcOf({<<1, 50, 2>>, <<50, 1>>, <<50>>})
SrcNil == {<<Nil(50), Tk(1), Nil(50), Nil(2), Tk(50)>>, <<Nil(51), Nil(50)>>, <<Tk(1), Nil(52)>>, <<Nil(1)>>}
SrcFew == SrcNil \cup SrcOf({<<>>, <<50>>, <<1>>, <<50, 1>>, <<1, 50>>, <<50, 1, 50, 2, 50>>, <<1, 2, 50, 1>>})
=============================================================================
