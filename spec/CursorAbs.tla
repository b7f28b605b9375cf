------------------------------ MODULE CursorAbs ------------------------------
(***************************************************************************)
(* C19: a cursor splits its string in what is behind and what is ahead.    *)
(* The string is its bytes; a character starts at a byte that is not a     *)
(* continuation byte. The index may also be past the end, by `over` bytes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Starts(b) == b < 128 \/ b >= 192
Cur(ahead) == IF ahead = <<>> THEN <<>> ELSE <<ahead[1]>>
\* how many bytes each operation moves over
While(ahead, set) == LET stops == {i \in 1..Len(ahead) : ahead[i] \notin set}
                     IN  IF stops = {} THEN Len(ahead) ELSE (CHOOSE i \in stops : \A j \in stops : i <= j) - 1
HasPrefix(ahead, p) == Len(p) <= Len(ahead) /\ SubSeq(ahead, 1, Len(p)) = p
\* bumping moves over a byte if there is one, else further past the end
One(ahead) == IF ahead = <<>> THEN 0 ELSE 1
BumpOver(ahead, over) == IF ahead = <<>> THEN over + 1 ELSE over
\* nothing is a prefix of what is past the end, maybe not even the empty text
MayHave(ahead, over, p) == IF over = 0 THEN {HasPrefix(ahead, p)} ELSE IF p = <<>> THEN BOOLEAN ELSE {FALSE}
ToNextChar(ahead) == LET stops == {i \in 2..Len(ahead) : Starts(ahead[i])}
                     IN  IF stops = {} THEN Len(ahead) ELSE (CHOOSE i \in stops : \A j \in stops : i <= j) - 1
Since(behind, m) == SubSeq(behind, m + 1, Len(behind))
=============================================================================
