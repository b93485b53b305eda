---------------------------------- MODULE Fan ----------------------------------
(* A composite reporter over local reporters: every call reaches every leaf,    *)
(* closing completes when all leaves have closed.  Completions arrive from       *)
(* several threads (or callbacks); each one counts under a lock.  Bug names a    *)
(* mutated design.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Leaves, Spans, Bug
VARIABLES todo,    \* what the composite still has to hand out: sequence of <<call, leaf>>
          made,    \* the calls made so far
          got,     \* per leaf the calls received
          compl,   \* leaves whose close completed
          count, lockedBy, read, done, hist
vars == <<todo, made, got, compl, count, lockedBy, read, done, hist>>
View == <<todo, made, got, compl, count, lockedBy, read, done>>
N == Cardinality(Leaves)
Init == /\ todo = <<>> /\ made = <<>> /\ got = [f \in Leaves |-> <<>>] /\ compl = {} /\ count = 0
        /\ lockedBy = 0 /\ read = [f \in Leaves |-> -1] /\ done = (Leaves = {}) /\ hist = <<>>
Targets == IF Bug = "skip" THEN 1..(N - 1) ELSE 1..N
Calls == {<<"report", s>> : s \in Spans} \cup {<<"process", 1>>, <<"close", 0>>}
Call(c) == /\ todo = <<>> /\ ~\E i \in 1..Len(made) : made[i] = c \/ made[i] = <<"close", 0>>
           /\ made' = Append(made, c) /\ hist' = Append(hist, c)
           /\ todo' = [i \in 1..Cardinality(Targets) |-> <<c, i>>]
           /\ UNCHANGED <<got, compl, count, lockedBy, read, done>>
Hand == /\ todo # <<>> /\ todo' = Tail(todo)
        /\ got' = [got EXCEPT ![Head(todo)[2]] = Append(@, Head(todo)[1])]
        /\ UNCHANGED <<made, compl, count, lockedBy, read, done, hist>>
Closed(f) == \E i \in 1..Len(got[f]) : got[f][i] = <<"close", 0>>
\* the completion of leaf f: read the count, write it back
Arrive(f) == /\ Closed(f) /\ f \notin compl /\ read[f] = -1
             /\ (lockedBy = 0 \/ Bug = "nolock") /\ lockedBy' = f
             /\ read' = [read EXCEPT ![f] = count] /\ hist' = Append(hist, <<"complete", f>>)
             /\ UNCHANGED <<todo, made, got, compl, count, done>>
Leave(f) == /\ read[f] >= 0 /\ f \notin compl
            /\ count' = read[f] + 1 /\ compl' = compl \cup {f} /\ lockedBy' = 0
            /\ done' = (done \/ (count' = N) \/ (Bug = "first" /\ count' > 0))
            /\ UNCHANGED <<todo, made, got, read, hist>>
Next == (\E c \in Calls : Call(c)) \/ Hand \/ \E f \in Leaves : Arrive(f) \/ Leave(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Hand) /\ \A f \in Leaves : WF_vars(Arrive(f)) /\ WF_vars(Leave(f))
Quiet == todo = <<>>
SameCalls == Quiet => \A f \in Leaves : got[f] = made
DoneMeansAll == done => compl = Leaves
Completes == (\A f \in Leaves : Closed(f)) ~> done
Emit == (hist # <<>> /\ (compl = Leaves \/ Len(hist) > 5)) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
