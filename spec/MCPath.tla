------------------------------- MODULE MCPath -------------------------------
(* The design of CleanPathBuf: a written path, rebuilt component by component after every change, *)
(* against the meaning; and the laws that follow.                                                 *)
EXTENDS PathAbs, Json
CONSTANTS MaxRaw, MaxDepth, Segs
VARIABLES buf,   \* the path as written, as segments
          cl,    \* the clean path meant
          last
vars == <<buf, cl, last>>
A == <<97>>
B == <<46, 97>>
MCSegs == {<<>>, Dot, DotDot, A, B}
MCSegsBig == {<<>>, Dot, DotDot, A, B, <<46, 46, 46>>}
Raws == UNION {[1..n -> Segs] : n \in 1..MaxRaw}
Root == << <<>>, <<>> >>
PushName(b, n) == IF b = Root THEN << <<>>, n >> ELSE Append(b, n)
Pop(b) == IF b = Root THEN Root ELSE IF Len(b) = 2 THEN Root ELSE SubSeq(b, 1, Len(b) - 1)
Rebuild(segs) == FoldLeft(LAMBDA b, s : IF s = <<>> \/ s = Dot THEN b
                                        ELSE IF s = DotDot THEN Pop(b) ELSE PushName(b, s), Root, segs)
Init == buf = Root /\ cl = <<>> /\ last = [o |-> "init", raw |-> << <<>> >>]
New(raw) == /\ Absolute(raw)
            /\ buf' = Rebuild(raw) /\ cl' = CleanOf(raw) /\ last' = [o |-> "new", raw |-> raw]
Push(raw) == /\ buf' = Rebuild(IF Absolute(raw) THEN raw ELSE buf \o raw)
             /\ cl' = Resolve(cl, raw) /\ last' = [o |-> "push", raw |-> raw]
Up == /\ Parent(cl) # <<>>
      /\ buf' = Pop(buf) /\ cl' = Parent(cl)[1] /\ last' = [o |-> "parent", raw |-> << <<>> >>]
Next == \/ Up
        \/ \E raw \in Raws : New(raw) \/ Push(raw)
Spec == Init /\ [][Next]_vars
Bound == Len(cl') <= MaxDepth
View == cl

\* the bytes of segments
Join(segs) == FoldLeft(LAMBDA acc, i : IF i = 1 THEN segs[1] ELSE acc \o <<Sep>> \o segs[i], <<>>, [i \in 1..Len(segs) |-> i])
\* another definition of cleaning: strike out a name with the `..` after it until none is left
RECURSIVE Strike(_)
Strike(ss) ==
  LET up == {i \in 1..Len(ss) : ss[i] = DotDot}
  IN  IF up = {} THEN ss
      ELSE LET i == CHOOSE x \in up : \A y \in up : x <= y
           IN  Strike(SubSeq(ss, 1, i - 2) \o SubSeq(ss, i + 1, Len(ss)))
Strike2(segs) == Strike(SelectSeq(segs, LAMBDA s : s # <<>> /\ s # Dot))
Same == /\ Join(buf) = Render(cl)
        /\ IsClean(Join(buf))
        /\ Names(Join(buf)) = cl
        /\ \A i \in 1..Len(cl) : IsName(cl[i])
        /\ Made(Split(Join(buf))) = <<cl>>                     \* idempotent
        /\ Split(Join(last.raw)) = last.raw \/ last.raw = <<>>
Laws == [][ LET raw == last'.raw
            IN  /\ cl' = IF last'.o = "parent" THEN SubSeq(cl, 1, Len(cl) - 1)
                         ELSE Strike2(IF Absolute(raw) THEN raw ELSE cl \o raw)
                \* making from a concatenation equals making, then pushing
                /\ last'.o = "push" /\ ~Absolute(raw) => CleanOf(buf \o raw) = cl' ]_vars
Emit == PrintT(ToJson([from |-> cl, o |-> last'.o, raw |-> last'.raw, to |-> cl']))
=============================================================================
