------------------------------- MODULE MCEdit -------------------------------
(* Edits one after the other: the design that keeps its index as long as it can, against applying *)
(* each to the then current text.                                                                *)
EXTENDS TextImpl, Json
CONSTANTS Texts, Inserts, MaxEdits, MaxTextLen
VARIABLES st, txt, first, hist
Ins == {<<>>, <<97>>, <<10>>, <<128512, 10>>}
Tiny == UNION {[1..n -> {97, 10, 128512}] : n \in 0..3}
Mid == UNION {[1..n -> {97, 10, 128512}] : n \in 0..4}
Start(t) == [text |-> t, ix |-> Index(t), valid |-> 99]
Init == \E t \in Texts : /\ st = Start(t) /\ txt = t /\ first = t /\ hist = <<>>
\* all positions that exist, and some that do not
Positions(t) == {<<Table(t)[i].line, Table(t)[i].col>> : i \in 1..Len(t) + 1}
Bad(t) == {<<Table(t)[Len(t) + 1].line + 1, 0>>, <<0, 2 * Len(t) + 1>>}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Next == /\ Len(hist) < MaxEdits
        /\ \E p, q \in Positions(txt) \cup Bad(txt), ins \in Inserts :
             /\ Before(p, q)
             /\ LET ch == [r |-> << p \o q >>, t |-> ins]
                IN  /\ st' = IApply(st, ch)
                    /\ txt' = ApplyOne(txt, ch)
                    /\ hist' = Append(hist, ch)
        /\ Len(txt') <= MaxTextLen
        /\ UNCHANGED first
Spec == Init /\ [][Next]_<<st, txt, first, hist>>
Agree == st.text = txt
View == <<st, txt>>
Emit == PrintT(ToJson([text |-> first, changes |-> hist']))
=============================================================================
