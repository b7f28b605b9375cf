------------------------------ MODULE AlwaysAbs ------------------------------
(* C25. What an assertion does, step by step, and what is promised about the outcome: how often the *)
(* condition was evaluated, the value or the panic, the records logged.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* obs: [evals, logs: <<level, message>>, r: value] or with panic |-> TRUE instead of r.
\* msg: <<>> if the default message was used, else <<text>>.
Has(r, f) == f \in DOMAIN r
Promised(build, cond, msg, ob) ==
  /\ ob.evals = 1
  /\ IF cond THEN Has(ob, "r") /\ ob.r = TRUE /\ ob.logs = <<>>
     ELSE IF build = "debug" THEN Has(ob, "panic")
     ELSE /\ Has(ob, "r") /\ ob.r = FALSE
          /\ Len(ob.logs) = 1 /\ ob.logs[1][1] = "ERROR"
          /\ msg # <<>> => ob.logs[1][2] = msg[1]
\* the same assertion n times over, all with a false condition; how many panicked, were told to be false, were logged
Times(build, n, ob) == ob = [r |-> [evals |-> n, panics |-> IF build = "debug" THEN n ELSE 0,
                                    no |-> IF build = "debug" THEN 0 ELSE n,
                                    logs |-> IF build = "debug" THEN ob.r.logs ELSE n]]
=============================================================================
