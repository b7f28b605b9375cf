------------------------------- MODULE MCMark -------------------------------
(* The design: a marker carries a bomb, which is defused when the marker is given back and goes off *)
(* when an armed one is dropped, unless a panic is already coming through; against MarkAbs.         *)
EXTENDS MarkAbs, Json
CONSTANTS MaxOps, MaxMarks
VARIABLES armed, completed, hist
vars == <<mvars, armed, completed, hist>>
Init == Start /\ armed = <<>> /\ completed = FALSE /\ hist = <<>>
Rec(e) == hist' = Append(hist, e)
Room == Len(hist) < MaxOps
GoesOff(m, debug, unwinding) == armed[m] /\ ~unwinding /\ (kind[m] = "P" \/ debug)
Begin == /\ Room /\ Len(kind) < MaxMarks
         /\ \/ Make("P") /\ Rec([o |-> "enter"]) /\ armed' = Append(armed, TRUE) /\ completed' = FALSE
            \/ completed /\ Make("P") /\ Rec([o |-> "precede"]) /\ armed' = Append(armed, TRUE) /\ completed' = FALSE
            \/ Make("S") /\ Rec([o |-> "mark"]) /\ armed' = Append(armed, TRUE) /\ UNCHANGED completed
GiveBack == /\ Room
            /\ \E m \in Ids :
                 /\ Can(m)
                 /\ \E how \in (IF kind[m] = "P" THEN {"exit", "abandon"} ELSE {"since", "did"}) :
                      /\ Rec([o |-> how, m |-> m])
                      /\ completed' = IF kind[m] = "P" THEN how = "exit" ELSE completed
                      /\ armed' = [armed EXCEPT ![m] = FALSE] /\ Gone(m)
Drop == /\ Room
        /\ \E m \in Ids :
             /\ Can(m)
             /\ \A d \in BOOLEAN : /\ Assert(GoesOff(m, d, FALSE) = Noticed(m, d), "dropped")
                                   /\ Assert(~GoesOff(m, d, TRUE), "unwinding")
             /\ \E how \in {"drop", "lost"} : Rec([o |-> how, m |-> m])
             /\ completed' = IF kind[m] = "P" THEN FALSE ELSE completed
             /\ armed' = [armed EXCEPT ![m] = FALSE] /\ Gone(m)
Save == Room /\ Rec([o |-> "save"]) /\ UNCHANGED <<mvars, armed, completed>>
Next == Begin \/ GiveBack \/ Drop \/ Save
Spec == Init /\ [][Next]_vars
Same == armed = live
Emit == IF Len(hist') = MaxOps THEN PrintT(ToJson([ops |-> hist'])) ELSE TRUE
=============================================================================
