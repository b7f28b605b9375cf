------------------------------- MODULE MCPunct -------------------------------
(* Why no entry of the table may come before a longer one: the table is built entry by entry *)
(* in that order, and a lexer that takes the first entry that fits always takes the longest.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Chars, MaxLen, MaxEntries
VARIABLES table
Texts(n) == UNION {[1..k -> Chars] : k \in 1..n}
Init == table = <<>>
Next == /\ Len(table) < MaxEntries
        /\ \E t \in Texts(MaxLen) \ ToSet(table) :
             /\ IF table = <<>> THEN TRUE ELSE Len(t) <= Len(table[Len(table)])
             /\ table' = Append(table, t)
Spec == Init /\ [][Next]_table
Fit(inp) == {k \in 1..Len(table) : IsPrefix(table[k], inp)}
First(inp) == CHOOSE k \in Fit(inp) : \A j \in Fit(inp) : k <= j
Longest == \A inp \in Texts(MaxLen + 1) :
             Fit(inp) # {} => \A j \in Fit(inp) : Len(table[First(inp)]) >= Len(table[j])
=============================================================================
