-------------------------------- MODULE SpanConc --------------------------------
(* The design of one span that several threads use: the steps between which the  *)
(* implementation can be preempted.  Bug removes a protection.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Procs, Bug
\* what every thread does, one operation each
Ops == [p \in Procs |-> CASE p = 1 -> "finish" [] p = 2 -> "finish" [] p = 3 -> "bag" [] p = 4 -> "bag" [] OTHER -> "tag"]
VARIABLES pc, lock, fin, en, reported, bag, logs, tags, tmp
vars == <<pc, lock, fin, en, reported, bag, logs, tags, tmp>>
Init == /\ pc = [p \in Procs |-> "call"] /\ lock = 0 /\ fin = FALSE /\ en = 0 /\ reported = <<>>
        /\ bag = {} /\ logs = {} /\ tags = {} /\ tmp = [p \in Procs |-> {}]
Locked(p) == IF (Bug = "nofinishlock" /\ Ops[p] = "finish") \/ (Bug = "nobaglock" /\ Ops[p] = "bag") THEN TRUE ELSE lock = p
Acquire(p) == /\ pc[p] = "call"
              /\ IF (Bug = "nofinishlock" /\ Ops[p] = "finish") \/ (Bug = "nobaglock" /\ Ops[p] = "bag")
                 THEN UNCHANGED lock ELSE lock = 0 /\ lock' = p
              /\ pc' = [pc EXCEPT ![p] = "in"]
              /\ UNCHANGED <<fin, en, reported, bag, logs, tags, tmp>>
Free(p) == lock' = IF lock = p THEN 0 ELSE lock
Test(p) == /\ pc[p] = "in" /\ Ops[p] = "finish"
           /\ IF fin THEN pc' = [pc EXCEPT ![p] = "done"] /\ Free(p) ELSE pc' = [pc EXCEPT ![p] = "set"] /\ UNCHANGED lock
           /\ UNCHANGED <<fin, en, reported, bag, logs, tags, tmp>>
Set(p) == /\ pc[p] = "set" /\ fin' = TRUE /\ en' = p /\ Free(p) /\ pc' = [pc EXCEPT ![p] = "report"]
          /\ UNCHANGED <<reported, bag, logs, tags, tmp>>
Report(p) == /\ pc[p] = "report" /\ reported' = Append(reported, en) /\ pc' = [pc EXCEPT ![p] = "done"]
             /\ UNCHANGED <<lock, fin, en, bag, logs, tags, tmp>>
ReadBag(p) == /\ pc[p] = "in" /\ Ops[p] = "bag" /\ tmp' = [tmp EXCEPT ![p] = bag] /\ pc' = [pc EXCEPT ![p] = "write"]
              /\ UNCHANGED <<lock, fin, en, reported, bag, logs, tags>>
WriteBag(p) == /\ pc[p] = "write" /\ bag' = tmp[p] \cup {p} /\ Free(p) /\ pc' = [pc EXCEPT ![p] = "log"]
               /\ UNCHANGED <<fin, en, reported, logs, tags, tmp>>
LogBag(p) == /\ pc[p] = "log" /\ logs' = logs \cup {p} /\ pc' = [pc EXCEPT ![p] = "done"]
             /\ UNCHANGED <<lock, fin, en, reported, bag, tags, tmp>>
Tag(p) == /\ pc[p] = "in" /\ Ops[p] = "tag" /\ tags' = tags \cup {p} /\ Free(p) /\ pc' = [pc EXCEPT ![p] = "done"]
          /\ UNCHANGED <<fin, en, reported, bag, logs, tmp>>
Next == \E p \in Procs : Acquire(p) \/ Test(p) \/ Set(p) \/ Report(p) \/ ReadBag(p) \/ WriteBag(p) \/ LogBag(p) \/ Tag(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ReportedOnce == Len(reported) <= 1
ReportedWithFinalEnd == \A i \in 1..Len(reported) : reported[i] = en
NothingLost == (\A p \in Procs : pc[p] = "done") =>
                 /\ bag = {p \in Procs : Ops[p] = "bag"} /\ logs = bag /\ tags = {p \in Procs : Ops[p] = "tag"}
                 /\ Len(reported) = 1
EndFixed == [][fin => en' = en]_vars
Terminates == <>(\A p \in Procs : pc[p] = "done")
=============================================================================
