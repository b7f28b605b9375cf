-------------------------------- MODULE MCSyn --------------------------------
(***************************************************************************)
(* What Access means for the trees the grammar describes: a node of        *)
(* mandatory and optional fields is built field by field, with trivia in   *)
(* between.  A field finds exactly what it put there if all fields of the  *)
(* same element before it are there; a repeated field finds all it put     *)
(* there if no other field is of the same element; and nothing is found    *)
(* that is not of the element.                                             *)
(***************************************************************************)
EXTENDS SynAbs
CONSTANTS MaxFields, MaxReps
VARIABLES fields, ch, put
vars == <<fields, ch, put>>
B == <<66>>
C == <<67>>
\* node 1 is the one built; 2 and 3 are nodes, 4 is either, 5 either token
G == [trivia |-> << <<87>> >>,
      tokens |-> <<[text |-> <<43>>, special |-> FALSE, desc |-> <<>>, doc |-> <<>>],
                   [text |-> <<105, 102>>, special |-> FALSE, desc |-> <<>>, doc |-> <<>>]>>,
      nodes |-> <<[name |-> <<65>>, alt |-> "no", members |-> <<>>, fields |-> fields],
                  [name |-> B, alt |-> "no", members |-> <<>>, fields |-> <<>>],
                  [name |-> C, alt |-> "no", members |-> <<>>, fields |-> <<>>],
                  [name |-> <<68>>, alt |-> "nodes", members |-> <<2, 3>>, fields |-> <<>>],
                  [name |-> <<69>>, alt |-> "tokens", members |-> <<1, 2>>, fields |-> <<>>]>>,
      chars |-> <<[c |-> 43, n |-> <<80, 108, 117, 115>>]>>]
F(tok, el, mod) == [label |-> <<>>, tok |-> tok, el |-> el, mod |-> mod]
Els == {<<TRUE, 1>>, <<FALSE, 2>>, <<FALSE, 4>>, <<FALSE, 5>>}
Trees(f) == IF f.tok THEN {[tok |-> TRUE, k |-> KindName(G, G.tokens[f.el])]}
            ELSE IF f.el = 4 THEN {[tok |-> FALSE, k |-> B], [tok |-> FALSE, k |-> C]}
            ELSE IF f.el = 5 THEN {[tok |-> TRUE, k |-> KindName(G, G.tokens[i])] : i \in 1..2}
            ELSE {[tok |-> FALSE, k |-> G.nodes[f.el].name]}
Space == [tok |-> TRUE, k |-> <<87>>]
Init == fields = <<>> /\ ch = <<>> /\ put = <<>>
Runs(f) == CASE f.mod = "one" -> {<<t>> : t \in Trees(f)}
             [] f.mod = "opt" -> {<<>>} \cup {<<t>> : t \in Trees(f)}
             [] OTHER -> UNION {[1..n -> Trees(f)] : n \in 0..MaxReps}
Next == /\ Len(fields) < MaxFields
        /\ \E e \in Els, mod \in {"one", "opt", "rep"}, sp \in BOOLEAN :
             LET f == F(e[1], e[2], mod) IN
             \E run \in Runs(f) :
               LET pre == IF sp THEN Append(ch, Space) ELSE ch
               IN  /\ fields' = Append(fields, f)
                   /\ ch' = pre \o run
                   /\ put' = Append(put, [k \in 1..Len(run) |-> Len(pre) + k])
Spec == Init /\ [][Next]_vars
Apart(f, h) == \A x \in Trees(f) : x \notin Trees(h)
Says ==
  \A k \in 1..Len(fields) :
    LET f == fields[k]
        got == Access(G, G.nodes[1], k, ch)
    IN  /\ \A i \in 1..Len(got) : IsEl(G, f, ch[got[i]])
        /\ (f.mod # "rep"
             /\ (\A j \in 1..(k - 1) : Apart(fields[j], f) \/ (Same(fields[j], f) /\ Len(put[j]) = 1))
             /\ (put[k] # <<>> \/ \A j \in 1..Len(fields) : j <= k \/ Apart(fields[j], f)))
             => got = put[k]
        /\ (f.mod = "rep" /\ \A j \in 1..Len(fields) : j = k \/ Apart(fields[j], f)) => got = put[k]
        /\ f.mod # "rep" => Len(got) <= 1
=============================================================================
