-------------------------------- MODULE MCMd --------------------------------
(* The design, one pass over the lines with a pending section, against the sections a document has. *)
EXTENDS MdAbs, Json
CONSTANTS LineSet, MaxLines
VARIABLES doc, lines, ret, key, val, crash
vars == <<doc, lines, ret, key, val, crash>>
A == Lead \o <<97, Tick>>
MCLineSet == {A, Lead \o <<98, Tick>>, <<35, 35, 32, 97>>, SubSeq(A, 2, 6), <<35>> \o A, <<32>> \o A, Append(A, 32),
              Lead, Append(Lead, Tick), <<>>, <<97>>, Lead \o <<Tick, 32, Tick, 32, Tick, Tick>>}
None == [x \in {} |-> <<>>]
Init == doc = <<>> /\ lines = <<>> /\ ret = None /\ key = <<>> /\ val = <<>> /\ crash = FALSE
Flush(r, k, v) == IF k = <<>> THEN r ELSE (k[1] :> v) @@ r
Line(line) ==
  /\ lines' = Append(lines, line)
  /\ doc' = doc \o line \o <<NL>>
  /\ IF IsHeading(line)
     THEN /\ crash' = (crash \/ (key # <<>> /\ key[1] \in DOMAIN ret))
          /\ ret' = Flush(ret, key, val)
          /\ key' = <<KeyOf(line)>>
          /\ val' = StartOf(KeyOf(line))
     ELSE val' = val \o <<NL>> \o line /\ UNCHANGED <<ret, key, crash>>
Next == Len(lines) < MaxLines /\ \E x \in LineSet : Line(x)
Spec == Init /\ [][Next]_vars
Same == /\ Lines(doc) = lines
        /\ LET secs == Sections(lines)
               died == crash \/ (key # <<>> /\ key[1] \in DOMAIN ret)
               all == Flush(ret, key, val)
           IN  /\ died = Duplicate(secs)
               /\ ~died => /\ DOMAIN all = {secs[i][1] : i \in 1..Len(secs)}
                           /\ \A i \in 1..Len(secs) : all[secs[i][1]] = secs[i][2]
Emit == PrintT(ToJson(doc'))
=============================================================================
