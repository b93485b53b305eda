------------------------------ MODULE CredDesign ------------------------------
(* Threads ask for debug spans while responses from the agent add credits.  Asking  *)
(* is a read followed by a write, under a lock.  A response is a sequence of         *)
(* balances, and may be malformed at some entry.  Bug names a mutated design.        *)
EXTENDS Cred, FiniteSets, Json
CONSTANTS Threads, OpNames, One, MaxResp, MaxAsks, Bug
VARIABLES c, lock, pc, rd, granted, allowed, denied, nresp, asks, hist
vars == <<c, lock, pc, rd, granted, allowed, denied, nresp, asks, hist>>
View == <<c, lock, pc, rd, granted, allowed, denied, nresp, asks>>
Zero == [o \in OpNames |-> 0]
Init == /\ c = NoCredit /\ lock = 0 /\ pc = [t \in Threads |-> ""] /\ rd = [t \in Threads |-> 0] /\ granted = Zero
        /\ allowed = Zero /\ denied = FALSE /\ nresp = 0 /\ asks = 0 /\ hist = <<>>
Read(t, o) == /\ pc[t] = "" /\ asks < MaxAsks /\ (lock = 0 \/ Bug = "nolock") /\ lock' = t /\ asks' = asks + 1
              /\ pc' = [pc EXCEPT ![t] = o] /\ rd' = [rd EXCEPT ![t] = Credit(c, o)] /\ hist' = Append(hist, <<"ask", o>>)
              /\ UNCHANGED <<c, granted, allowed, denied, nresp>>
Write(t) == LET o == pc[t] yes == IF Bug = "greedy" THEN rd[t] > 0 ELSE rd[t] >= One IN
            /\ o # "" /\ pc' = [pc EXCEPT ![t] = ""] /\ lock' = (IF lock = t THEN 0 ELSE lock)
            /\ c' = Set1(c, o, IF yes THEN rd[t] - One ELSE IF Bug = "forfeit" THEN 0 ELSE rd[t])
            /\ allowed' = (IF yes THEN [allowed EXCEPT ![o] = @ + One] ELSE allowed)
            /\ denied' = (denied \/ (~yes /\ granted[o] - allowed[o] >= One /\ Cardinality({u \in Threads : pc[u] # ""}) = 1))
            /\ UNCHANGED <<rd, granted, nresp, asks, hist>>
\* a response: credits n for o, and perhaps a malformed entry after that
Resp(o, n, ok) == /\ nresp < MaxResp /\ (lock = 0 \/ Bug = "nolock") /\ nresp' = nresp + 1
                  /\ c' = (IF ok \/ Bug = "halfway" THEN AfterResp(c, [kind |-> "credit", ops |-> <<[op |-> o, n |-> n]>>]) ELSE c)
                  /\ granted' = (IF ok THEN [granted EXCEPT ![o] = @ + n] ELSE granted)
                  /\ hist' = Append(hist, <<"resp", o, n, ok>>)
                  /\ UNCHANGED <<lock, pc, rd, allowed, denied, asks>>
Next == (\E t \in Threads, o \in OpNames : Read(t, o)) \/ (\E t \in Threads : Write(t))
        \/ \E o \in OpNames, n \in {1, 2, 3}, ok \in BOOLEAN : Resp(o, n, ok)
Budget == \A o \in OpNames : allowed[o] <= granted[o]
NotWasted == ~denied
Exact == (\A t \in Threads : pc[t] = "") => \A o \in OpNames : Credit(c, o) = granted[o] - allowed[o]
Emit == (Len(hist) >= 8) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
