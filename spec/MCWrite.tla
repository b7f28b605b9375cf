------------------------------- MODULE MCWrite -------------------------------
(* Finding the place, parsing and formatting before anything is written: a failure at any step      *)
(* leaves the files as they were.                                                                   *)
EXTENDS WriteAbs, Json
CONSTANTS Names, Sources, Bad, MaxWrites
VARIABLES files, was, job, pc, hist
vars == <<files, was, job, pc, hist>>
None == [n \in {} |-> 0]
Outs == {"dir", "none", "gone"}
Init == files = None /\ was = None /\ job = <<>> /\ pc = "idle" /\ hist = <<>>
Call == /\ pc = "idle" /\ Len(hist) < MaxWrites
        /\ \E n \in Names, s \in Sources \cup Bad, o \in Outs :
             job' = <<n, s, o>> /\ hist' = Append(hist, <<n, s, o>>)
        /\ pc' = "env" /\ was' = files /\ UNCHANGED files
Step(from, ok, to) == pc = from /\ pc' = IF ok THEN to ELSE "failed"
Env == Step("env", job[3] # "none", "parse") /\ UNCHANGED <<files, was, job, hist>>
Parse == Step("parse", job[2] \notin Bad, "write") /\ UNCHANGED <<files, was, job, hist>>
Write == /\ Step("write", job[3] # "gone", "done") /\ UNCHANGED <<was, job, hist>>
         /\ files' = IF job[3] = "gone" THEN files ELSE (job[1] :> job[2]) @@ files
Return == pc \in {"done", "failed"} /\ pc' = "idle" /\ UNCHANGED <<files, was, job, hist>>
Next == Call \/ Env \/ Parse \/ Write \/ Return
Spec == Init /\ [][Next]_vars
Same == /\ pc = "done" => ~Fails(job[2] \notin Bad, job[3], <<97>>) /\ files = (job[1] :> job[2]) @@ was
        /\ pc = "failed" => Fails(job[2] \notin Bad, job[3], <<97>>) /\ files = was
Emit == IF pc \in {"done", "failed"} /\ Len(hist) = MaxWrites THEN PrintT(ToJson(hist)) ELSE TRUE
=============================================================================
