------------------------------- MODULE PatAbs -------------------------------
(***************************************************************************)
(* C17, C18: what patterns mean.                                           *)
(*                                                                         *)
(* A signature is a sequence of types, [lit, size, cons]: a literal type    *)
(* has infinitely many values without arguments; one with a size is the    *)
(* numbers from 0 below it, whose patterns are ranges; any other has the   *)
(* constructors cons, [c, args] with args the types of the arguments (types *)
(* are their numbers in the signature).                                    *)
(* A pattern is [c, args, i]: i names it; c = 0 is `any`; c = -2 an or of  *)
(* its args; c = -3 any literal but its args (never given, only reported). *)
(* Arguments left out at the end count as `any`.                           *)
(* A value is [c, args]; c = 0 is some value not looked into.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

AnyC == 0
OrC == -2
But == -3
Fresh == 1999    \* a literal that no pattern mentions; literals are above 1000
\* ranges are above 2000
Range2(lo, hi) == 2000 + 100 * lo + hi
Lo(c) == (c - 2000) \div 100
Hi(c) == (c - 2000) % 100
\* what a constructor stands for includes another one
Covers(c, d) == c = AnyC \/ c = d \/ (c >= 2000 /\ d >= 2000 /\ Lo(c) <= Lo(d) /\ Hi(d) <= Hi(c))

ConOf(sig, t, c) == CHOOSE k \in ToSet(sig[t].cons) : k.c = c
Has(sig, t, c) == \/ sig[t].lit /\ c > 1000 /\ c < 2000
                  \/ sig[t].size > 0 /\ c >= 2000 /\ Lo(c) <= Hi(c) /\ Hi(c) < sig[t].size
                  \/ ~sig[t].lit /\ \E k \in ToSet(sig[t].cons) : k.c = c
ArgTys(sig, t, c) == IF c > 1000 \/ c <= 0 THEN <<>> ELSE ConOf(sig, t, c).args

\* the types with any values at all
RECURSIVE Grow(_, _)
Grow(sig, s) == LET more == {t \in 1..Len(sig) : \/ sig[t].lit \/ sig[t].size > 0
                                                 \/ \E k \in ToSet(sig[t].cons) : ToSet(k.args) \subseteq s}
                IN  IF more = s THEN s ELSE Grow(sig, more)
Inhabited(sig) == Grow(sig, {})

RECURSIVE Depth(_)
Depth(p) == LET ds == {Depth(p.args[k]) : k \in 1..Len(p.args)}
                m == IF ds = {} THEN 0 ELSE CHOOSE d \in ds : \A x \in ds : x <= d
            IN  IF p.c = AnyC THEN 0 ELSE IF p.c = OrC THEN m ELSE IF p.c = But THEN 1 ELSE 1 + m
RECURSIVE Lits(_)
Lits(p) == UNION {Lits(p.args[k]) : k \in 1..Len(p.args)} \cup (IF p.c > 1000 /\ p.c < 2000 THEN {p.c} ELSE {})

Unseen == [c |-> 0, args |-> <<>>]
\* the values of a type, looked into d deep
RECURSIVE Values(_, _, _, _, _), Tuples(_, _, _, _, _)
Values(sig, inh, lits, t, d) ==
  IF t \notin inh THEN {}
  ELSE IF d = 0 THEN {Unseen}
  ELSE IF sig[t].lit THEN {[c |-> x, args |-> <<>>] : x \in lits \cup {Fresh}}
  ELSE IF sig[t].size > 0 THEN {[c |-> Range2(x, x), args |-> <<>>] : x \in 0..(sig[t].size - 1)}
  ELSE UNION {{[c |-> k.c, args |-> a] : a \in Tuples(sig, inh, lits, k.args, d - 1)} : k \in ToSet(sig[t].cons)}
Tuples(sig, inh, lits, ts, d) ==
  IF ts = <<>> THEN {<<>>}
  ELSE {<<v>> \o r : v \in Values(sig, inh, lits, ts[1], d), r \in Tuples(sig, inh, lits, Tail(ts), d)}

RECURSIVE Matches(_, _)
Matches(p, v) ==
  IF p.c = AnyC THEN TRUE
  ELSE IF p.c = OrC THEN \E k \in 1..Len(p.args) : Matches(p.args[k], v)
  ELSE IF p.c = But THEN \A k \in 1..Len(p.args) : p.args[k].c # v.c
  ELSE Covers(p.c, v.c) /\ \A k \in 1..Len(p.args) : Matches(p.args[k], v.args[k])

FirstOf(s) == CHOOSE x \in s : \A y \in s : x <= y
\* what the first way to match goes through
RECURSIVE Path(_, _)
Path(p, v) ==
  {p.i} \cup (IF p.c = OrC THEN Path(p.args[FirstOf({k \in 1..Len(p.args) : Matches(p.args[k], v)})], v)
              ELSE UNION {Path(p.args[k], v.args[k]) : k \in 1..Len(p.args)})
RECURSIVE Ids(_)
Ids(p) == {p.i} \cup UNION {Ids(p.args[k]) : k \in 1..Len(p.args)}
AllIds(ps) == UNION {Ids(ps[k]) : k \in 1..Len(ps)} \ {-1}

RECURSIVE WellFormed(_, _, _)
WellFormed(sig, p, t) ==
  CASE p.c = AnyC -> p.args = <<>>
    [] p.c = OrC -> \A k \in 1..Len(p.args) : WellFormed(sig, p.args[k], t)
    [] p.c = But -> sig[t].lit
    [] OTHER -> /\ Has(sig, t, p.c)
                /\ LET ts == ArgTys(sig, t, p.c)
                   IN  /\ Len(p.args) <= Len(ts)
                       /\ \A k \in 1..Len(p.args) : WellFormed(sig, p.args[k], ts[k])
RECURSIVE HasOr(_)
HasOr(p) == p.c = OrC \/ (p.c # But /\ \E k \in 1..Len(p.args) : HasOr(p.args[k]))
RECURSIVE HasNever(_)
HasNever(p) == (p.c = OrC /\ p.args = <<>>) \/ \E k \in 1..Len(p.args) : HasNever(p.args[k])

Most(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : y <= x
\* the values that tell apart the patterns ps
Tests(sig, t, ps) ==
  Values(sig, Inhabited(sig), UNION {Lits(ps[k]) : k \in 1..Len(ps)}, t, Most({Depth(ps[k]) : k \in 1..Len(ps)}))
Hit(ps, v) == {k \in 1..Len(ps) : Matches(ps[k], v)}
----------------------------------------------------------------------------
(* C17 *)
MissingOk(sig, t, ps, missing, complete) ==
  LET vs == Tests(sig, t, ps \o missing)
  IN  /\ (missing = <<>>) = (\A v \in vs : Hit(ps, v) # {})
      /\ \A v \in vs : Hit(missing, v) # {} => Hit(ps, v) = {}
      /\ complete => \A v \in vs : Hit(ps, v) = {} => Hit(missing, v) # {}
      /\ \A k \in 1..Len(missing) : ~HasOr(missing[k]) /\ WellFormed(sig, missing[k], t)
(* C18 *)
Reached(sig, t, ps) ==
  UNION {LET h == Hit(ps, v) IN IF h = {} THEN {} ELSE Path(ps[FirstOf(h)], v) : v \in Tests(sig, t, ps)}
Unreachable(sig, t, ps) == AllIds(ps) \ Reached(sig, t, ps)
=============================================================================
