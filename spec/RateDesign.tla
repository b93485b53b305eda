------------------------------- MODULE RateDesign -------------------------------
(* The rate limiter shared by two threads, with a clock that can be stepped back. *)
(* Balance in units; one item costs Cost; one unit per tick and Rate.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cost, Rate, Cap, Horizon, Steps, Bug
VARIABLES now, fwd,      \* the clock, and how far it ran forward in total
          bal, last, lock, pc, tmp, acc,
          wait      \* time that passed between questions since the last positive answer
vars == <<now, fwd, bal, last, lock, pc, tmp, acc, wait>>
T == {1, 2}
Init == /\ now = 10 /\ fwd = 0 /\ bal \in {0, Cap} /\ last = 10 /\ lock = 0 /\ pc = [t \in T |-> "idle"] /\ tmp = [t \in T |-> 0]
        /\ acc = <<>> /\ wait = 0
Tick == now' = now + 1 /\ fwd' = fwd + 1 /\ fwd < Horizon /\ UNCHANGED <<wait, bal, last, lock, pc, tmp, acc>>
Back == \E k \in Steps : now - k > 0 /\ now' = now - k /\ Len(acc) < 3 /\ UNCHANGED <<wait, fwd, bal, last, lock, pc, tmp, acc>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Capped(x) == IF Bug = "nocap" THEN x ELSE Min(Cap, x)
Begin(t) == /\ pc[t] = "idle" /\ (lock = 0 \/ Bug = "nolock") /\ lock' = t
            /\ LET el == IF Bug = "negative" THEN now - last ELSE Max(now - last, 0)
                   b == Capped(bal + el * Rate)
               IN tmp' = [tmp EXCEPT ![t] = b] /\ bal' = b
            /\ wait' = wait + Max(now - last, 0)
            /\ last' = now /\ pc' = [pc EXCEPT ![t] = "paying"] /\ UNCHANGED <<now, fwd, acc>>
Pay(t) == /\ pc[t] = "paying"
          /\ IF tmp[t] >= Cost
             THEN bal' = tmp[t] - Cost /\ acc' = Append(acc, fwd) /\ wait' = 0
             ELSE bal' = (IF Bug = "penalty" THEN Max(tmp[t] - 1, 0) ELSE tmp[t]) /\ acc' = acc /\ wait' = wait
          /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<now, fwd, last, tmp>>
Next == (\A t \in T : pc[t] = "idle" /\ Tick) \/ Back \/ \E t \in T : Begin(t) \/ Pay(t)
Small == Len(acc) < 7
\* in every window at most the capacity and what the window earns
Window == \A i, j \in 1..Len(acc) : i <= j => (j - i + 1) * Cost <= Cap + (acc[j] - acc[i]) * Rate
\* whoever waited long enough since the last sample is not refused
Fed == \A t \in T : (pc[t] = "paying" /\ wait * Rate >= Cost) => tmp[t] >= Cost
Range0 == bal >= 0 /\ bal <= Cap
=============================================================================
