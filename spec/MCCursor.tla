------------------------------ MODULE MCCursor ------------------------------
(* The design, one index into the string (or past it), against the split; histories to replay. *)
EXTENDS CursorAbs, Json
CONSTANTS Texts, MaxOps, MaxMarks, MaxOver
VARIABLES txt, idx, marks,      \* the design
          behind, ahead, over,  \* the meaning
          ops, last
vars == <<txt, idx, marks, behind, ahead, over, ops, last>>
E == <<195, 169>>
S == <<240, 159, 152, 128>>
MCTexts == {<<>>, <<97>>, <<97, 98>>, E, Append(E, 97), <<97>> \o E, S, S \o E \o <<98>>, <<97, 97, 98>>}
MCTextsBig == MCTexts \cup {E \o E, <<226, 130, 172>> \o S, <<10, 97, 10, 97>>, <<97, 98, 97, 98, 99>>}
Sets == {{97}, {97, 98, 195, 169}, {}}
Tries == {<<>>, <<97>>, <<97, 98>>, <<98>>, <<195>>, <<169, 97>>}
Init == /\ txt \in Texts /\ idx = 0 /\ marks = <<>> /\ behind = <<>> /\ ahead = txt /\ over = 0 /\ ops = <<>> /\ last = <<>>
Move(n, op) == /\ behind' = behind \o SubSeq(ahead, 1, n)
               /\ ahead' = SubSeq(ahead, n + 1, Len(ahead))
               /\ ops' = Append(ops, op) /\ last' = op /\ UNCHANGED <<txt, marks>>
Byte(i) == IF i < Len(txt) THEN <<txt[i + 1]>> ELSE <<>>
Boundary(i) == i = 0 \/ i = Len(txt) \/ (i < Len(txt) /\ Starts(txt[i + 1]))
RECURSIVE Scan(_, _)
Scan(i, set) == IF Byte(i) # <<>> /\ Byte(i)[1] \in set THEN Scan(i + 1, set) ELSE i
RECURSIVE ToBoundary(_)
ToBoundary(i) == IF Boundary(i) THEN i ELSE ToBoundary(i + 1)
Bump == /\ over < MaxOver \/ ahead # <<>>
        /\ idx' = idx + 1 /\ over' = BumpOver(ahead, over) /\ Move(One(ahead), [o |-> "bump"])
BumpWhile == over' = over /\ \E set \in Sets : idx' = Scan(idx, set) /\ Move(While(ahead, set), [o |-> "while", set |-> set])
Eat == over' = over /\ \E p \in Tries :
         LET hit == idx <= Len(txt) /\ idx + Len(p) <= Len(txt) /\ SubSeq(txt, idx + 1, idx + Len(p)) = p
         IN  /\ idx' = IF hit THEN idx + Len(p) ELSE idx
             /\ hit \in MayHave(ahead, over, p)
             /\ Move(IF HasPrefix(ahead, p) THEN Len(p) ELSE 0, [o |-> "eat", p |-> p])
NextStr == ahead # <<>> /\ over' = over /\ idx' = ToBoundary(idx + 1) /\ Move(ToNextChar(ahead), [o |-> "next_str"])
Mark == /\ Len(marks) < MaxMarks /\ marks' = Append(marks, idx)
        /\ ops' = Append(ops, [o |-> "mark"]) /\ last' = [o |-> "mark"] /\ UNCHANGED <<txt, idx, behind, ahead, over>>
Use == \E q \in {"since", "non_empty", "did"} :
         /\ marks # <<>>
         /\ over = 0 \/ q = "did"   \* a slice is asked for within the string only
         /\ marks' = SubSeq(marks, 1, Len(marks) - 1)
         /\ ops' = Append(ops, [o |-> q, m |-> Len(marks)]) /\ last' = [o |-> q, m |-> marks[Len(marks)]]
         /\ UNCHANGED <<txt, idx, behind, ahead, over>>
Next == Len(ops) < MaxOps /\ (Bump \/ BumpWhile \/ Eat \/ NextStr \/ Mark \/ Use)
Spec == Init /\ [][Next]_vars
Same == /\ idx = Len(behind) + over /\ behind \o ahead = txt
        /\ Byte(idx) = Cur(ahead)
        /\ \A m \in ToSet(marks) : m <= idx /\ (over = 0 => Since(behind, m) = SubSeq(txt, m + 1, idx))
View == <<txt, idx, marks>>
Emit == PrintT(ToJson([text |-> txt, ops |-> ops']))
=============================================================================
