------------------------------- MODULE MCTime -------------------------------
(* Reading a clock before and after the call, then logging, keeps the promise, for every nesting of *)
(* calls, whatever the clock does but go back.                                                      *)
EXTENDS TimeAbs, Json
CONSTANTS MaxKids, MaxClock
VARIABLES prog, level, stack, done, logs, next, clock, panic
vars == <<prog, level, stack, done, logs, next, clock, panic>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Calls(K) == [how : {"time", "log"}, m : {"m"}, kids : K, panic : BOOLEAN]
Leaf == Calls({<<>>})
T1 == Calls(Seqs(Leaf, MaxKids))
T2 == Calls({<<k>> : k \in T1})
Frame(c) == [c |-> c, id |-> next, pc |-> "read", k |-> 0, outer |-> clock, start |-> 0, body |-> 0, inner |-> 0, took |-> 0]
Init == /\ prog \in T1 \cup T2 /\ level \in {"off", "info"}
        /\ next = 0 /\ clock = 0 /\ stack = <<Frame(prog)>> /\ done = <<>> /\ logs = <<>> /\ panic = -1
Top == stack[Len(stack)]
Set(f) == [stack EXCEPT ![Len(stack)] = f]
Tick == \E d \in 0..1 : clock + d <= MaxClock /\ clock' = clock + d
NoTick == clock' = clock
Go(pc, stk) == stack # <<>> /\ panic = -1 /\ Top.pc = pc /\ stack' = stk
Read == Go("read", Set([Top EXCEPT !.pc = "enter", !.start = clock])) /\ Tick /\ UNCHANGED <<done, logs, next, panic>>
Enter == Go("enter", Set([Top EXCEPT !.pc = "body", !.body = clock])) /\ Tick /\ UNCHANGED <<done, logs, next, panic>>
Body == /\ stack # <<>> /\ panic = -1 /\ Top.pc = "body"
        /\ IF Top.k < Len(Top.c.kids)
           THEN /\ next' = next + 1 /\ NoTick
                /\ stack' = Append(Set([Top EXCEPT !.k = @ + 1]),
                                   [Frame(Top.c.kids[Top.k + 1]) EXCEPT !.id = next + 1])
                /\ UNCHANGED <<done, logs, panic>>
           ELSE IF Top.c.panic THEN panic' = Top.id /\ stack' = <<>> /\ NoTick /\ UNCHANGED <<done, logs, next>>
           ELSE stack' = Set([Top EXCEPT !.pc = "stop", !.inner = clock - Top.body]) /\ Tick /\ UNCHANGED <<done, logs, next, panic>>
Stop == Go("stop", Set([Top EXCEPT !.pc = IF Top.c.how = "log" THEN "log" ELSE "back", !.took = clock - Top.start]))
        /\ Tick /\ UNCHANGED <<done, logs, next, panic>>
Log == /\ Go("log", Set([Top EXCEPT !.pc = "back"])) /\ Tick /\ UNCHANGED <<done, next, panic>>
       /\ logs' = IF Logged(level) THEN Append(logs, <<"INFO", Top.took>>) ELSE logs
Back == /\ Go("back", SubSeq(stack, 1, Len(stack) - 1)) /\ NoTick /\ UNCHANGED <<logs, next, panic>>
        /\ done' = Append(done, [call |-> Top.id, evals |-> 1, same |-> TRUE, inner |-> Top.inner, took |-> Top.took,
                                 outer |-> clock - Top.outer])
Next == (Read \/ Enter \/ Body \/ Stop \/ Log \/ Back) /\ UNCHANGED <<prog, level>>
Spec == Init /\ [][Next]_vars
Kept == stack = <<>> => Promised(prog, level, done, panic, logs, LAMBDA x, m : x[2])
\* one test per program
Emit == IF stack' = <<>> /\ clock' = 0 THEN PrintT(ToJson([level |-> level, call |-> prog])) ELSE TRUE
=============================================================================
