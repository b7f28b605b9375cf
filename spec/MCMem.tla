------------------------------- MODULE MCMem -------------------------------
(* The design of the memory file system, an ordered list of stored paths searched by path, against *)
(* its meaning; one test per set of stored files.                                                  *)
EXTENDS PathAbs, Json, FiniteSetsExt
CONSTANTS Universe, MaxFiles
VARIABLES mem, rows, last
A == <<97>>
AB == <<97, 98>>
DA == <<46, 97>>
MCUniverse == {<<>>, <<A>>, <<AB>>, <<A, A>>, <<A, AB>>, <<AB, A>>, <<A, A, DA>>}
Empty == [x \in {} |-> 0]
\* order of paths: component by component
RECURSIVE Lex(_, _)
Lex(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
             ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Lex(Tail(x), Tail(y))
RECURSIVE Before(_, _)
Before(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
                ELSE IF p[1] # q[1] THEN Lex(p[1], q[1]) ELSE Before(Tail(p), Tail(q))
Init == mem = Empty /\ rows = <<>> /\ last = <<>>
Put(p) == /\ mem' = (p :> Len(p) + 5) @@ mem
          /\ rows' = LET i == Cardinality({k \in 1..Len(rows) : Before(rows[k][1], p)})
                         same == i < Len(rows) /\ rows[i + 1][1] = p
                     IN  SubSeq(rows, 1, i) \o <<<<p, Len(p) + 5>>>> \o SubSeq(rows, IF same THEN i + 2 ELSE i + 1, Len(rows))
          /\ last' = p
Remove1(p) == /\ mem' = [q \in DOMAIN mem \ {p} |-> mem[q]]
              /\ rows' = SelectSeq(rows, LAMBDA r : r[1] # p)
              /\ last' = p
Next == \E p \in Universe : Put(p) \/ Remove1(p)
Bound == Cardinality(DOMAIN mem') <= MaxFiles
Spec == Init /\ [][Next]_<<mem, rows, last>>
View == mem
\* searching the ordered rows by halves
RECURSIVE Search(_, _, _)
Search(p, lo, hi) == IF lo > hi THEN <<>>
                     ELSE LET m == (lo + hi) \div 2
                          IN  IF rows[m][1] = p THEN <<rows[m][2]>>
                              ELSE IF Before(rows[m][1], p) THEN Search(p, m + 1, hi) ELSE Search(p, lo, m - 1)
Spellings(p) == {<< <<>> >> \o (IF p = <<>> THEN << <<>> >> ELSE p), << <<>>, Dot >> \o p, << <<>>, <<>> >> \o p \o << <<>> >>}
Same == \A p \in Universe \cup {<<DA>>} :
  /\ Search(p, 1, Len(rows)) = (IF p \in DOMAIN mem THEN <<mem[p]>> ELSE <<>>)
  /\ \A s \in Spellings(p) :
       /\ (\E q \in DOMAIN mem : Denotes(mem, s, q)) = (p \in DOMAIN mem)
       /\ Listing(mem, s) = {rows[i][1] : i \in {k \in 1..Len(rows) : StrictlyBelow(p, rows[k][1])}}
Emit == PrintT(ToJson([files |-> [i \in 1..Len(rows) |-> rows[i][1]], last |-> last', del |-> last' \notin DOMAIN mem']))
=============================================================================
