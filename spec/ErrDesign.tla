------------------------------ MODULE ErrDesign ------------------------------
(* Threads report errors, which are logged once per interval I, and not in the      *)
(* first one.  Looking at the time of the last message and setting it are two        *)
(* steps, under a lock.  Bug names a mutated design.                                 *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json
CONSTANTS Threads, I, MaxT, MaxErrors, Bug
VARIABLES now, last, lock, pc, logs, n, hist
vars == <<now, last, lock, pc, logs, n, hist>>
View == <<now, last, lock, pc, logs, n>>
Init == /\ now = 0 /\ last = (IF Bug = "eager" THEN 0 - I - 1 ELSE 0) /\ lock = 0 /\ pc = [t \in Threads |-> ""] /\ logs = <<>> /\ n = 0
        /\ hist = <<>>
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<last, lock, pc, logs, n, hist>>
Look(t) == /\ pc[t] = "" /\ n < MaxErrors /\ n' = n + 1 /\ (Bug # "nolock" => lock = 0)
           /\ IF now > last + I THEN pc' = [pc EXCEPT ![t] = "log"] /\ lock' = t /\ last' = last
              ELSE pc' = pc /\ lock' = lock /\ last' = (IF Bug = "push" THEN now ELSE last)
           /\ hist' = Append(hist, now) /\ UNCHANGED <<now, logs>>
Log(t) == /\ pc[t] = "log" /\ pc' = [pc EXCEPT ![t] = ""] /\ lock' = 0 /\ last' = now /\ logs' = Append(logs, now)
          /\ UNCHANGED <<now, n, hist>>
Next == Tick \/ \E t \in Threads : Look(t) \/ Log(t)
AtMostOnce == \A i, j \in 1..Len(logs) : i < j => logs[j] > logs[i] + I \/ logs[j] = logs[i] + I
Late == \A i \in 1..Len(logs) : logs[i] > I
\* an error that was reported in silence of more than an interval has been logged, unless its thread is about to do so
Heard == (\A t \in Threads : pc[t] = "") => \A i \in 1..Len(hist) : hist[i] > I => \E j \in 1..Len(logs) : logs[j] + I >= hist[i]
Emit == Len(hist) = MaxErrors => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
