------------------------------- MODULE CaseAbs -------------------------------
(* C21: identifier cases, by words. Text is a sequence of code points. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Under == 95
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
Upper(c) == IF IsLower(c) THEN c - 32 ELSE c
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Map(xs, F(_)) == [i \in 1..Len(xs) |-> F(xs[i])]
RECURSIVE Cat(_, _, _)
Cat(xss, a, b) == IF b < a THEN <<>> ELSE IF a = b THEN xss[a]
                  ELSE LET m == (a + b) \div 2 IN Cat(xss, a, m) \o Cat(xss, m + 1, b)
Flat(xss) == Cat(xss, 1, Len(xss))
\* the pieces between the places where x is
Pieces(t, x) == LET at == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = x)
                    n == Len(at)
                IN  [k \in 1..n + 1 |-> SubSeq(t, IF k = 1 THEN 1 ELSE at[k - 1] + 1, IF k = n + 1 THEN Len(t) ELSE at[k] - 1)]
Words(t) == Pieces(t, Under)
Capital(w) == [i \in 1..Len(w) |-> IF i = 1 THEN Upper(w[i]) ELSE Lower(w[i])]
SnakeToPascal(t) == Flat(Map(Words(t), Capital))
PascalToSnake(t) == Flat([i \in 1..Len(t) |-> (IF i > 1 /\ IsUpper(t[i]) THEN <<Under>> ELSE <<>>) \o <<Lower(t[i])>>])
\* where the two are inverse to each other
Digit(c) == c >= 48 /\ c <= 57
SnakeIdent(t) == LET ws == Words(t)
                 IN  \A i \in 1..Len(ws) : /\ ws[i] # <<>> /\ IsLower(ws[i][1])
                                           /\ \A k \in 1..Len(ws[i]) : IsLower(ws[i][k]) \/ Digit(ws[i][k])
PascalIdent(t) == /\ t # <<>> /\ IsUpper(t[1])
                  /\ \A i \in 1..Len(t) : IsUpper(t[i]) \/ IsLower(t[i]) \/ Digit(t[i])
=============================================================================
