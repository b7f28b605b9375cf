------------------------------- MODULE MCText -------------------------------
(* Positions: every text up to a length over characters of all widths, grown one character at a *)
(* time; every offset, position and range of it.                                                *)
EXTENDS TextImpl, Json
CONSTANTS Alphabet, MaxLen
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t

Tab == Table(t)
Ix == Index(t)
Lines == Tab[Len(Tab)].line
Cols == 2 * MaxLen + 2

\* C14 of the definition itself: a bijection between boundaries and positions
OneToOne == /\ \A i \in 1..Len(Tab) : OffOf(Tab, Tab[i].line, Tab[i].col) = <<Tab[i].off>>
             /\ \A o \in 0..Size(Tab) + 2 : PosOf(Tab, o) # <<>> => OffOf(Tab, PosOf(Tab, o)[1][1], PosOf(Tab, o)[1][2]) = <<o>>
             /\ \A ln \in 0..Lines + 1, c \in 0..Cols :
                  OffOf(Tab, ln, c) # <<>> => PosOf(Tab, OffOf(Tab, ln, c)[1]) = << <<ln, c>> >>
\* the design agrees with the definition
DesignPos == \A o \in 0..Size(Tab) + 2 : IPosOf(Ix, o) = PosOf(Tab, o)
DesignOff == \A ln \in 0..Lines + 1, c \in 0..Cols : IOffOf(Ix, ln, c) = OffOf(Tab, ln, c)
DesignTiles == \A b \in 0..Size(Tab) : \A a \in 0..b :
                  /\ ITiles(Ix, a, b) = Tiles(Breaks(t, Tab), a, b)
                  \* C15 of the definition: a tiling, cut only just after newlines
                  /\ LET ts == Tiles(Breaks(t, Tab), a, b)
                     IN  /\ (a = b) = (ts = <<>>)
                         /\ ts # <<>> => ts[1][1] = a /\ ts[Len(ts)][2] = b
                         /\ \A i \in 1..Len(ts) : ts[i][1] < ts[i][2]
                         /\ \A i \in 2..Len(ts) : ts[i][1] = ts[i-1][2]
Emit == PrintT(ToJson([text |-> t']))
=============================================================================
