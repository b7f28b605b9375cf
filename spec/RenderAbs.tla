------------------------------ MODULE RenderAbs ------------------------------
(* C26: what is rendered. Numbers are their decimal digits, text is code points. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
RECURSIVE Inc(_)
Inc(ds) == IF ds = <<>> THEN <<49>>
           ELSE LET n == Len(ds) IN
                IF ds[n] < 57 THEN [ds EXCEPT ![n] = @ + 1]
                ELSE Append(Inc(SubSeq(ds, 1, n - 1)), 48)
Colon == <<58>>
Dash == <<45>>
Warning == <<119, 97, 114, 110, 105, 110, 103>>
Error == <<101, 114, 114, 111, 114>>
Sevs == <<Warning, Error>>
PosText(p) == Inc(p[1]) \o Colon \o Inc(p[2])
RangeText(r) == PosText(<<r[1], r[2]>>) \o Dash
                \o (IF r[1] = r[3] THEN Inc(r[4]) ELSE PosText(<<r[3], r[4]>>))
DiagText(r, sev, msg) == RangeText(r) \o <<58, 32>> \o Sevs[sev] \o <<58, 32>> \o msg
\* from the a-th to the b-th
RECURSIVE SepFrom(_, _, _, _)
SepFrom(sep, xs, a, b) == IF b < a THEN <<>> ELSE IF a = b THEN xs[a]
                          ELSE LET m == (a + b) \div 2
                               IN  SepFrom(sep, xs, a, m) \o sep \o SepFrom(sep, xs, m + 1, b)
SepText(sep, xs) == SepFrom(sep, xs, 1, Len(xs))
Comma == <<44, 32>>
\* a pattern [or, con, args]
Bar == <<32, 124, 32>>
RECURSIVE PatText(_)
PatText(p) == LET as == [i \in 1..Len(p.args) |-> PatText(p.args[i])]
              IN  IF p.or THEN (IF as = <<>> THEN <<60, 78, 69, 86, 69, 82, 62>> ELSE SepText(Bar, as))
                  ELSE IF as = <<>> THEN p.con
                  ELSE p.con \o <<40>> \o SepText(Comma, as) \o <<41>>
----------------------------------------------------------------------------
(* Order: of numbers (decimals without leading zeros), of tuples of numbers. *)
RECURSIVE DigitCmp(_, _)
DigitCmp(x, y) == IF x = <<>> THEN 0 ELSE IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
                  ELSE DigitCmp(Tail(x), Tail(y))
NumCmp(x, y) == IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1) ELSE DigitCmp(x, y)
RECURSIVE TupleCmp(_, _)
TupleCmp(x, y) == IF x = <<>> THEN 0 ELSE LET h == NumCmp(x[1], y[1])
                                          IN  IF h # 0 THEN h ELSE TupleCmp(Tail(x), Tail(y))
----------------------------------------------------------------------------
(* Codes read back. A text that denotes a number in range in an unusual way (leading zeros, a plus  *)
(* sign) may be accepted, with that value, or not.                                                  *)
Digits(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] >= 48 /\ t[i] <= 57
RECURSIVE Strip(_)
Strip(t) == IF Len(t) > 1 /\ t[1] = 48 THEN Strip(Tail(t)) ELSE t
RECURSIVE LexLe(_, _)
LexLe(x, y) == IF x = <<>> THEN TRUE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE LexLe(Tail(x), Tail(y))
InRange(t) == Len(t) < 5 \/ (Len(t) = 5 /\ LexLe(t, <<54, 53, 53, 51, 53>>))
Value(t) == FoldLeft(LAMBDA acc, d : 10 * acc + (d - 48), 0, t)
Plain(t) == Digits(t) /\ Strip(t) = t /\ InRange(t)
Unsigned(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
Denotes(t) == LET u == Unsigned(t)
              IN  Digits(u) /\ InRange(Strip(u)) /\ (t[1] = 45 => Strip(u) = <<48>>)
\* r: <<>> for an error, <<n>> for a code
ReadOk(t, r) == IF Plain(t) THEN r = <<Value(t)>>
                ELSE IF Denotes(t) THEN r \in {<<>>, <<Value(Strip(Unsigned(t)))>>}
                ELSE r = <<>>
=============================================================================
