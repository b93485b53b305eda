---------------------------------- MODULE Poll ----------------------------------
(* A poller of the agent: the remote sampler, or the remote throttler, which has  *)
(* nothing to ask for until an operation was seen.  Time is discrete; I is the     *)
(* refresh interval.  The first poll comes after a random delay of at most I, the  *)
(* following ones every I, until the poller is closed.  The loop runs in one       *)
(* thread, close is called from any other.  Bug names a mutated design.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS I, Horizon, NeedsOps, Ops, Bug
VARIABLES now, pc, due, running, closedAt, polls, seen, since, answered, hist
vars == <<now, pc, due, running, closedAt, polls, seen, since, answered, hist>>
View == <<now, pc, due, running, closedAt, polls, seen, since, answered>>
Init == /\ now = 0 /\ pc = "posted" /\ due = 0 /\ running = TRUE /\ closedAt = -1 /\ polls = <<>> /\ seen = {} /\ since = -1
        /\ answered = {} /\ hist = <<>>
Delays == 0..(IF Bug = "late" THEN 2 * I ELSE I)
U == <<now, closedAt, running, seen, since, answered, hist>>
Begin == /\ pc = "posted" /\ UNCHANGED <<polls, U>>
         /\ IF running THEN \E d \in Delays : pc' = "delayed" /\ due' = now + d ELSE pc' = "stopped" /\ due' = due
\* the delay is over: is it still running?
Wake == /\ pc = "delayed" /\ now = due /\ UNCHANGED <<polls, due, U>>
        /\ pc' = IF running \/ Bug = "nocheck" THEN "go" ELSE "stopped"
Poll == IF NeedsOps /\ seen = {} /\ Bug # "empty" THEN polls' = polls
        ELSE polls' = Append(polls, [t |-> now, ops |-> seen])
Go == /\ pc = "go" /\ pc' = "started" /\ UNCHANGED <<due, U>>
      /\ IF Bug = "noimmediate" THEN polls' = polls ELSE Poll
\* the periodic timer is set up only if it was not closed in the meantime
Periodic == /\ pc = "started" /\ UNCHANGED <<polls, U>>
            /\ IF running \/ Bug = "norecheck" THEN pc' = "periodic" /\ due' = now + I ELSE pc' = "stopped" /\ due' = due
Round == /\ pc = "periodic" /\ now = due /\ Poll /\ due' = now + I /\ pc' = pc /\ UNCHANGED U
Tick == /\ now < Horizon /\ pc \notin {"posted", "go", "started"} /\ (pc \in {"delayed", "periodic"} => now < due)
        /\ now' = now + 1 /\ hist' = Append(hist, <<"adv", 1>>)
        /\ UNCHANGED <<pc, due, running, closedAt, polls, seen, since, answered>>
Close == /\ running' = FALSE /\ closedAt = -1 /\ closedAt' = now
         /\ pc' = IF pc = "periodic" THEN "stopped" ELSE pc
         /\ hist' = Append(hist, <<"close">>) /\ UNCHANGED <<now, due, polls, seen, since, answered>>
See(o) == /\ o \notin seen /\ seen' = seen \cup {o} /\ since' = (IF since = -1 THEN now ELSE since) /\ hist' = Append(hist, <<"ask", o>>)
          /\ UNCHANGED <<now, pc, due, running, closedAt, polls, answered>>
Answer(n, a) == /\ closedAt = -1 /\ n \in 1..Len(polls) /\ n \notin answered /\ answered' = answered \cup {n}
                /\ hist' = Append(hist, <<"answer", n - 1, a>>)
                /\ UNCHANGED <<now, pc, due, running, closedAt, polls, seen, since>>
Next == Begin \/ Wake \/ Go \/ Periodic \/ Round \/ Tick \/ Close \/ (\E o \in Ops : See(o))
        \/ (\E n \in 1..3, a \in {"yes", "no", "invalid", "garbage", "fail"} : Answer(n, a))
\* what is promised
Quiet == pc \notin {"posted", "go", "started"} /\ ~(pc \in {"delayed", "periodic"} /\ now = due)
FirstInTime == (Quiet /\ closedAt = -1 /\ ~NeedsOps /\ now >= I) => polls # <<>>
AskedInTime == (Quiet /\ closedAt = -1 /\ since >= 0 /\ now >= since + I) => polls # <<>>
Spacing == \A i \in 1..(Len(polls) - 1) : polls[i + 1].t - polls[i].t = I
Current == (Quiet /\ closedAt = -1 /\ polls # <<>>) => now - polls[Len(polls)].t < I
NotAfterClose == closedAt >= 0 => \A i \in 1..Len(polls) : polls[i].t <= closedAt
NeverEmpty == NeedsOps => \A i \in 1..Len(polls) : polls[i].ops # {}
Emit == (now = Horizon \/ Len(hist) >= 30) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
