------------------------------- MODULE PatImpl -------------------------------
(***************************************************************************)
(* The design: usefulness of a stack of patterns with respect to a matrix, *)
(* splitting constructors, expanding ors into rows; useful patterns are     *)
(* ticked off along the way.  Columns are worked on from the last one.     *)
(***************************************************************************)
EXTENDS PatAbs

AnyPat == [c |-> AnyC, args |-> <<>>, i |-> -1]
RECURSIVE Expand(_)
Expand(p) == IF p.c = OrC THEN FoldLeft(LAMBDA acc, q : acc \o Expand(q), <<>>, p.args) ELSE <<p>>
Push(mtx, row) ==
  IF row = <<>> THEN Append(mtx, row)
  ELSE LET n == Len(row)
           cs == Expand(row[n])
       IN  mtx \o [k \in 1..Len(cs) |-> Append(SubSeq(row, 1, n - 1), cs[k])]

\* the pieces the ends of ranges cut a range into
Pieces(lo, hi, rs) ==
  LET cuts == {x \in {Lo(r) : r \in rs} \cup {Hi(r) + 1 : r \in rs} : lo < x /\ x <= hi} \cup {lo}
      last(x) == LET more == {y \in cuts : y > x} IN IF more = {} THEN hi ELSE FirstOf(more) - 1
  IN  {[c |-> Range2(x, last(x)), args |-> <<>>] : x \in cuts}
\* the language's part: `any` is split completely if the column tells constructors apart
Split(sig, inh, t, c, col) ==
  IF c >= 2000 THEN Pieces(Lo(c), Hi(c), {k \in col : k # AnyC})
  ELSE IF c # AnyC THEN {[c |-> c, args |-> <<>>]}
  ELSE IF t \notin inh THEN {}
  ELSE LET seen == {k \in col : k # AnyC}
       IN  IF seen = {} THEN {[c |-> AnyC, args |-> <<>>]}
           ELSE IF sig[t].size > 0 THEN Pieces(0, sig[t].size - 1, seen)
           ELSE IF sig[t].lit
           THEN {[c |-> k, args |-> <<>>] : k \in seen}
                \cup {[c |-> But, args |-> SetToSeq({[c |-> k, args |-> <<>>, i |-> -1] : k \in seen})]}
           ELSE {[c |-> k.c, args |-> <<>>] : k \in {x \in ToSet(sig[t].cons) : ToSet(x.args) \subseteq inh}}

Anys(n) == [k \in 1..n |-> AnyPat]
\* <<>> if the pattern does not cover the constructor, else <<patterns for its arguments, reversed>>
Specialize(p, con, arity) ==
  IF p.c = AnyC THEN <<Anys(arity)>>
  ELSE IF Covers(p.c, con) THEN <<Reverse(p.args \o Anys(arity - Len(p.args)))>>
  ELSE <<>>

RECURSIVE Useful(_, _, _, _), OrUseful(_, _, _, _, _, _, _)
Useful(sig, inh, mtx, val) ==
  IF val = <<>> THEN [w |-> IF mtx = <<>> THEN {<<>>} ELSE {}, hit |-> {}]
  ELSE
    LET n == Len(val)
        p == val[n].p
        t == val[n].t
        rest == SubSeq(val, 1, n - 1)
        one(con) ==
          LET tys == ArgTys(sig, t, con.c)
              spec(q) == Specialize(q, con.c, Len(tys))
              rows == FoldLeft(LAMBDA acc, row :
                                 LET new == spec(row[n])
                                 IN  IF new = <<>> THEN acc ELSE Push(acc, SubSeq(row, 1, n - 1) \o new[1]),
                               <<>>, mtx)
              mine == spec(p)[1]
              u == Useful(sig, inh, rows, rest \o [k \in 1..Len(tys) |-> [p |-> mine[k], t |-> tys[Len(tys) + 1 - k]]])
              build(w) == LET a == Reverse(SubSeq(w, Len(w) - Len(tys) + 1, Len(w)))
                          IN  Append(SubSeq(w, 1, Len(w) - Len(tys)),
                                     [c |-> con.c, args |-> IF con.c = But THEN con.args ELSE a, i |-> -1])
          IN  [w |-> {build(w) : w \in u.w}, hit |-> u.hit]
        res == IF p.c = OrC THEN OrUseful(sig, inh, mtx, rest, t, p.args, [w |-> {}, hit |-> {}])
               ELSE LET all == {one(con) : con \in Split(sig, inh, t, p.c, {mtx[k][n].c : k \in 1..Len(mtx)})}
                    IN  [w |-> UNION {r.w : r \in all}, hit |-> UNION {r.hit : r \in all}]
    IN  [w |-> res.w, hit |-> res.hit \cup (IF res.w # {} THEN {p.i} ELSE {})]
OrUseful(sig, inh, mtx, rest, t, alts, acc) ==
  IF alts = <<>> THEN acc
  ELSE LET u == Useful(sig, inh, mtx, Append(rest, [p |-> alts[1], t |-> t]))
       IN  OrUseful(sig, inh, Push(mtx, Append([k \in 1..Len(rest) |-> rest[k].p], alts[1])), rest, t, Tail(alts),
                    [w |-> acc.w \cup u.w, hit |-> acc.hit \cup u.hit])
=============================================================================
