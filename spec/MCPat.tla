-------------------------------- MODULE MCPat --------------------------------
(* Adding patterns one at a time: at every moment the design's missing patterns and unreachable *)
(* patterns are what the meaning says.                                                           *)
EXTENDS PatImpl, Json
CONSTANTS Sigs, MaxRows
VARIABLES sg, pats, mtx, hit
vars == <<sg, pats, mtx, hit>>
K(c, as) == [c |-> c, args |-> as]
Data(ks) == [lit |-> FALSE, size |-> 0, cons |-> ks]
Lit == [lit |-> TRUE, size |-> 0, cons |-> <<>>]
Num(n) == [lit |-> FALSE, size |-> n, cons |-> <<>>]
\* 1: pairs of booleans. 2: lists of booleans. 3: option of a literal. 4: a result whose error has no values.
\* 5: three constructors with ors in ors. 6: numbers with ranges, and something else.
SigOf(s) ==
  CASE s = 1 -> << Data(<<K(1, <<2, 2>>)>>), Data(<<K(2, <<>>), K(3, <<>>)>>) >>
    [] s = 2 -> << Data(<<K(1, <<>>), K(2, <<2, 1>>)>>), Data(<<K(3, <<>>), K(4, <<>>)>>) >>
    [] s = 3 -> << Data(<<K(1, <<>>), K(2, <<2>>)>>), Lit >>
    [] s = 4 -> << Data(<<K(1, <<2>>), K(2, <<3>>)>>), Data(<<K(3, <<>>), K(4, <<>>)>>), Data(<<>>) >>
    [] s = 5 -> << Data(<<K(1, <<>>), K(2, <<2>>), K(3, <<2, 2>>)>>), Data(<<K(4, <<>>), K(5, <<>>)>>) >>
    [] s = 6 -> << Data(<<K(1, <<2, 3>>)>>), Num(5), Data(<<K(2, <<>>), K(3, <<>>)>>) >>
P(c, as) == [c |-> c, args |-> as, i |-> -1]
A == P(0, <<>>)
O(x, y) == P(OrC, <<x, y>>)
Z(c) == P(c, <<>>)
Un(c, xs) == {P(c, <<x>>) : x \in xs}
Bin(c, xs, ys) == {P(c, <<x, y>>) : x \in xs, y \in ys}
Bools(t, f) == {A, Z(t), Z(f), O(Z(t), Z(f))}
Pool(s) ==
  CASE s = 1 -> LET b == Bools(2, 3) IN {A} \cup Bin(1, b, b) \cup {O(P(1, <<Z(2), A>>), P(1, <<A, Z(2)>>)), P(1, <<Z(3)>>)}
    [] s = 2 -> LET tl == {A, Z(1), P(2, <<Z(3), A>>), P(2, <<A, Z(1)>>)}
                IN  {A, Z(1), P(OrC, <<>>)} \cup Bin(2, {A, Z(3), O(Z(4), Z(3))}, tl) \cup {O(Z(1), P(2, <<A, O(Z(1), P(2, <<Z(3), A>>))>>))}
    [] s = 3 -> {A, Z(1)} \cup Un(2, {A, Z(1001), Z(1002), O(Z(1001), Z(1002)), O(Z(1001), Z(1001)), O(A, Z(1001))})
                \cup {O(Z(1), P(2, <<Z(1001)>>)), P(2, <<>>)}
    [] s = 4 -> {A, P(2, <<A>>), P(2, <<>>)} \cup Un(1, Bools(3, 4)) \cup {O(P(2, <<A>>), P(1, <<Z(3)>>)), O(A, P(2, <<A>>))}
    [] s = 5 -> {A, Z(1), P(2, <<Z(4)>>), P(2, <<Z(5)>>), P(3, <<Z(4), A>>), P(3, <<A, Z(5)>>),
                 P(OrC, <<Z(1), O(P(2, <<A>>), P(2, <<Z(4)>>)), P(3, <<O(Z(4), Z(5)), O(A, Z(4))>>)>>),
                 P(OrC, <<O(Z(1), Z(1)), A>>), P(3, <<>>)}
    [] s = 6 -> LET r(lo, hi) == Z(Range2(lo, hi))
                IN  {A} \cup Bin(1, {A, r(0, 2), r(2, 4), r(1, 3), r(0, 4), r(3, 3), O(r(0, 1), r(1, 4))}, {A, Z(2), O(Z(2), Z(3))})
RECURSIVE Number(_, _), NumberAll(_, _, _)
\* gives [p, n]: the pattern with its parts numbered from n on
Number(p, n) == LET r == NumberAll(p.args, n + 1, <<>>) IN [p |-> [c |-> p.c, args |-> r.ps, i |-> n], n |-> r.n]
NumberAll(ps, n, acc) == IF ps = <<>> THEN [ps |-> acc, n |-> n]
                         ELSE LET r == Number(ps[1], n) IN NumberAll(Tail(ps), r.n, Append(acc, r.p))
Sig == SigOf(sg)
Inh == Inhabited(Sig)
Init == sg \in Sigs /\ pats = <<>> /\ mtx = <<>> /\ hit = {}
Add(q) == LET p == Number(q, 100 * (Len(pats) + 1)).p
          IN  /\ pats' = Append(pats, p)
              /\ hit' = hit \cup Useful(Sig, Inh, mtx, <<[p |-> p, t |-> 1]>>).hit
              /\ mtx' = Push(mtx, <<p>>)
              /\ UNCHANGED sg
Next == Len(pats) < MaxRows /\ \E q \in Pool(sg) : Add(q)
Spec == Init /\ [][Next]_vars
Missing == LET w == Useful(Sig, Inh, mtx, <<[p |-> AnyPat, t |-> 1]>>).w IN SetToSeq({x[1] : x \in w})
Same == /\ AllIds(pats) \ hit = Unreachable(Sig, 1, pats)
        /\ \A k \in 1..Len(pats) : WellFormed(Sig, pats[k], 1)
        /\ MissingOk(Sig, 1, pats, Missing, TRUE)
Emit == PrintT(ToJson([sig |-> Sig, pats |-> pats']))
=============================================================================
