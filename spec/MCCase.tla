------------------------------- MODULE MCCase -------------------------------
(* The design of the conversions, reading a character at a time, against their meaning. *)
EXTENDS CaseAbs, Json
CONSTANTS Chars, MaxLen
VARIABLES inp, cap, pascal, snake
vars == <<inp, cap, pascal, snake>>
Init == inp = <<>> /\ cap = TRUE /\ pascal = <<>> /\ snake = <<>>
Read(c) == /\ inp' = Append(inp, c)
           /\ cap' = (c = Under)
           /\ pascal' = IF c = Under THEN pascal ELSE Append(pascal, IF cap THEN Upper(c) ELSE Lower(c))
           /\ snake' = snake \o (IF inp # <<>> /\ IsUpper(c) THEN <<Under>> ELSE <<>>) \o <<Lower(c)>>
Next == Len(inp) < MaxLen /\ \E c \in Chars : Read(c)
Spec == Init /\ [][Next]_vars
Same == pascal = SnakeToPascal(inp) /\ snake = PascalToSnake(inp)
RoundTrip == /\ SnakeIdent(inp) => PascalToSnake(SnakeToPascal(inp)) = inp
           /\ PascalIdent(inp) => SnakeToPascal(PascalToSnake(inp)) = inp
\* upper snake case gives the same pascal case
EitherCase == SnakeToPascal(Map(inp, Upper)) = SnakeToPascal(Map(inp, Lower))
Emit == PrintT(ToJson(inp'))
=============================================================================
