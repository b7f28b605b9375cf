------------------------------ MODULE MCAlways ------------------------------
EXTENDS AlwaysAbs
VARIABLES build, cond, msg, pc, ob
vars == <<build, cond, msg, pc, ob>>
Init == /\ build \in {"debug", "release"} /\ cond \in BOOLEAN /\ msg \in {<<>>, <<"m">>}
        /\ pc = "eval" /\ ob = [evals |-> 0, logs |-> <<>>]
Eval == pc = "eval" /\ pc' = "assert" /\ ob' = [ob EXCEPT !.evals = @ + 1] /\ UNCHANGED <<build, cond, msg>>
Assert0 == /\ pc = "assert" /\ UNCHANGED <<build, cond, msg>>
           /\ IF build = "debug" /\ ~cond THEN pc' = "done" /\ ob' = [panic |-> TRUE] @@ ob
              ELSE pc' = "log" /\ ob' = ob
Log == /\ pc = "log" /\ pc' = "yield" /\ UNCHANGED <<build, cond, msg>>
       /\ ob' = IF cond THEN ob ELSE [ob EXCEPT !.logs = Append(@, <<"ERROR", IF msg = <<>> THEN "default" ELSE msg[1]>>)]
Yield == pc = "yield" /\ pc' = "done" /\ ob' = [r |-> cond] @@ ob /\ UNCHANGED <<build, cond, msg>>
Next == Eval \/ Assert0 \/ Log \/ Yield
Spec == Init /\ [][Next]_vars
Same == pc = "done" => Promised(build, cond, msg, ob)
=============================================================================
