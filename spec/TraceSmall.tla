------------------------------ MODULE TraceSmall ------------------------------
(* Recordings of the components whose answers depend on the arguments alone (and makers of unique *)
(* identifiers), judged by their specifications.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
C == INSTANCE CaseAbs
M == INSTANCE MdAbs
R == INSTANCE RenderAbs
N == INSTANCE ConsAbs
A == INSTANCE AlwaysAbs
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES build, made, l
Has(r, f) == f \in DOMAIN r
Each(xs, F(_)) == [i \in 1..Len(xs) |-> F(xs[i])]
Panic == [panic |-> TRUE]

Batch(e, F(_)) ==
  LET x == Each(e.xs, F)
      bad == {i \in 1..Len(x) : ~Has(e.obs, "r") \/ e.obs.r[i] # x[i]}
  IN  IF bad = {} THEN <<>> ELSE LET i == CHOOSE k \in bad : \A j \in bad : k <= j
                                 IN  <<[arg |-> e.xs[i], expected |-> x[i]]>>
Is(e, x) == IF e.obs = x THEN <<>> ELSE <<[expected |-> x]>>
That(ok, x) == IF ok THEN <<>> ELSE <<[expected |-> x]>>

MdOk(e) ==
  LET secs == M!SectionsFrom(M!Lines(e.md), e.pre, e.suf)
  IN  IF M!Duplicate(secs) THEN Is(e, Panic)
      ELSE That(/\ Has(e.obs, "r")
                /\ Len(e.obs.r) = Len(secs)
                /\ ToSet(e.obs.r) = ToSet(secs), secs)
NamesOk(e) ==
  LET ts == e.xs
      n == Len(ts)
  IN  Is(e, [r |-> [eq |-> [i \in 1..n |-> [j \in 1..n |-> ts[i] = ts[j]]],
                    cmp |-> [i \in 1..n |-> [j \in 1..n |-> N!LexCmp(ts[i], ts[j])]],
                    hash |-> [i \in 1..n |-> [j \in 1..n |-> TRUE]],
                    at |-> Each(e.qs, LAMBDA q : N!LastAt(ts, q)),
                    tree |-> Each(e.qs, LAMBDA q : N!LastAt(ts, q)),
                    shown |-> ts]])
\* empty iff as promised, else what is wrong
Wrong(e) ==
  CASE e.o = "s2p" -> Batch(e, C!SnakeToPascal)
    [] e.o = "p2s" -> Batch(e, C!PascalToSnake)
    [] e.o = "md" -> MdOk(e)
    [] e.o = "pos" -> Batch(e, R!PosText)
    [] e.o = "range" -> Batch(e, R!RangeText)
    [] e.o = "diag" -> Is(e, [r |-> R!DiagText(e.range, e.sev, e.msg)])
    [] e.o = "sev" -> Is(e, [r |-> [shown |-> R!Sevs, more |-> TRUE, max |-> R!Error]])
    [] e.o = "sep" -> Is(e, [r |-> R!SepText(e.sep, e.items)])
    [] e.o = "comma" -> Is(e, [r |-> R!SepText(R!Comma, e.items)])
    [] e.o = "pat" -> Batch(e, R!PatText)
    [] e.o = "wrap" -> LET p == <<e.range[1], e.range[2]>>
                       IN  Is(e, [r |-> [zero |-> <<p, p>>, vals |-> <<e.t, e.t>>, same |-> TRUE]])
    [] e.o = "ords" -> Is(e, [r |-> [i \in 1..Len(e.xs) |-> [j \in 1..Len(e.xs) |-> R!TupleCmp(e.xs[i], e.xs[j])]]])
    [] e.o = "codes" -> Is(e, [r |-> [k \in 1..e.to - e.from + 1 |->
                                        LET n == e.from + k - 1 IN <<R!Dec(n), <<n>>, n>>]])
    [] e.o = "read" -> LET bad == {i \in 1..Len(e.xs) : ~Has(e.obs, "r") \/ ~R!ReadOk(e.xs[i], e.obs.r[i])}
                       IN  IF bad = {} THEN <<>> ELSE <<[arg |-> e.xs[CHOOSE i \in bad : TRUE]]>>
    [] e.o = "trynames" -> Batch(e, LAMBDA t : IF N!NameOk(t) THEN <<t>> ELSE <<>>)
    [] e.o = "name" -> Is(e, IF N!NameOk(e.t) THEN [r |-> e.t] ELSE Panic)
    [] e.o = "names" -> NamesOk(e)
    [] e.o = "map" -> IF ~N!NoDup(Each(e.xs, LAMBDA p : p[1])) THEN Is(e, Panic)
                      ELSE That(Has(e.obs, "r") /\ Len(e.obs.r) = Len(e.xs) /\ ToSet(e.obs.r) = ToSet(e.xs), e.xs)
    [] e.o = "set" -> IF ~N!NoDup(e.xs) THEN Is(e, Panic)
                      ELSE That(Has(e.obs, "r") /\ Len(e.obs.r) = Len(e.xs) /\ ToSet(e.obs.r) = ToSet(e.xs), e.xs)
    [] e.o \in {"idx", "size"} -> Is(e, IF N!Fits32(e.n) THEN [r |-> e.n] ELSE Panic)
    [] e.o = "chars" -> That(Has(e.obs, "r") /\ N!TableOk(e.obs.r.opt) /\ e.obs.r.get = e.obs.r.opt,
                             "a name of its own for each documented character")
    [] e.o = "far" -> Is(e, [r |-> 0])
    [] e.o = "mk" -> LET n == made[e.maker + 1] + e.n
                     IN  Is(e, [r |-> [eq |-> n, hash |-> n, same |-> 0] @@ (IF e.show THEN [shown |-> n] ELSE [copies |-> TRUE])
                                      @@ [copies |-> TRUE]])
    [] e.o = "always" -> That(A!Promised(build, e.c, e.msg, e.obs), [build |-> build])
    [] e.o = "assertions" -> That(A!Times(build, e.n, e.obs), [build |-> build])
    [] e.o = "u32" -> IF N!Fits32(e.n) THEN Is(e, [r |-> e.n, logs |-> <<>>])
                      ELSE IF build = "debug" THEN That(Has(e.obs, "panic"), Panic)
                      ELSE That(Has(e.obs, "r") /\ e.obs.r = N!AllOnes, N!AllOnes)
    [] e.o = "usize" -> Is(e, [r |-> e.n, logs |-> <<>>])

TInit == build = "" /\ made = [i \in 1..8 |-> 0] /\ l = 1
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.o = "reset" THEN build' = e.build /\ made' = [i \in 1..8 |-> 0]
     ELSE /\ LET w == Wrong(e) IN IF w = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", l, ToJson(w[1])>>)
          /\ made' = IF e.o = "mk" THEN [made EXCEPT ![e.maker + 1] = @ + e.n] ELSE made
          /\ build' = build
TSpec == TInit /\ [][TNext]_<<build, made, l>>
TView == <<l>>
Done == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1>>)
=============================================================================
