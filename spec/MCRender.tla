------------------------------- MODULE MCRender -------------------------------
(* Counting in decimals, separating a sequence as a fold over an iterator, reading codes back. *)
EXTENDS RenderAbs, Json
CONSTANTS MaxN, MaxSeq
VARIABLES num, ds,           \* a number and its digits
          xs, sep, out, pos  \* an iterator half way
vars == <<num, ds, xs, sep, out, pos>>
Items == {<<>>, <<97>>, <<44, 32>>}
Seqs == UNION {[1..k -> Items] : k \in 0..MaxSeq}
Init == num \in {0, 65500} /\ ds = Dec(num) /\ xs \in Seqs /\ sep \in Items /\ out = <<>> /\ pos = 0
Count == (num < MaxN \/ num \in 65500..65570) /\ num' = num + 1 /\ ds' = Inc(ds) /\ UNCHANGED <<xs, sep, out, pos>>
Emit1 == /\ pos < Len(xs) /\ pos' = pos + 1
         /\ out' = IF pos = 0 THEN xs[1] ELSE out \o sep \o xs[pos + 1]
         /\ UNCHANGED <<num, ds, xs, sep>>
Next == \/ (xs = <<>> /\ sep = <<>> /\ Count)
        \/ Emit1
Spec == Init /\ [][Next]_vars
Same == /\ ds = Dec(num) /\ Inc(Dec(num)) = Dec(num + 1)
        /\ NumCmp(ds, Inc(ds)) = -1 /\ NumCmp(Inc(ds), ds) = 1 /\ NumCmp(ds, ds) = 0
        /\ num <= 65535 => Plain(ds) /\ Value(ds) = num /\ ReadOk(ds, <<num>>) /\ ~ReadOk(ds, <<>>)
        /\ num > 65535 => ~Denotes(ds)
        /\ pos = Len(xs) => out = SepText(sep, xs)
=============================================================================
