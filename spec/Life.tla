---------------------------------- MODULE Life ----------------------------------
(* The life of a tracer with a remote sampler, a remote throttler and a remote   *)
(* reporter: closing takes several steps, in any thread, while spans finish,     *)
(* polls fire and batches leave.  Bug names a mutated design.                     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Spans, Polls, Closes, Bug
VARIABLES samp, thr,        \* are polls for strategies / credits under way?
          open,             \* does the reporter still accept spans?
          queue, accepted, sent, polls,
          pc,               \* per call of close: how far it is (4: returned)
          done,             \* per call of close: its future is complete
          early             \* a poll began after close returned
vars == <<samp, thr, open, queue, accepted, sent, polls, pc, done, early>>
Calls == 1..Closes
Init == /\ samp = TRUE /\ thr = TRUE /\ open = TRUE /\ queue = 0 /\ accepted = 0 /\ sent = 0 /\ polls = 0
        /\ pc = [c \in Calls |-> 0] /\ done = [c \in Calls |-> FALSE] /\ early = FALSE
Returned == \E c \in Calls : pc[c] = 4
Poll(on) == /\ on /\ polls < Polls /\ polls' = polls + 1 /\ early' = (early \/ Returned)
            /\ UNCHANGED <<samp, thr, open, queue, accepted, sent, pc, done>>
Finish == /\ accepted < Spans
          /\ IF open THEN queue' = queue + 1 /\ accepted' = accepted + 1 ELSE UNCHANGED <<queue, accepted>>
          /\ UNCHANGED <<samp, thr, open, sent, polls, pc, done, early>>
Deliver == /\ queue > 0 /\ queue' = queue - 1 /\ sent' = sent + 1
           /\ UNCHANGED <<samp, thr, open, accepted, polls, pc, done, early>>
Close(c) == /\ pc[c] < 4 /\ pc' = [pc EXCEPT ![c] = @ + 1]
            /\ samp' = (IF pc[c] = 0 THEN FALSE ELSE samp)
            /\ thr' = (IF pc[c] = 1 /\ Bug # "throttler" THEN FALSE ELSE thr)
            /\ open' = (IF pc[c] = 2 THEN FALSE ELSE open)
            /\ done' = (IF pc[c] = 3 /\ Bug = "early" THEN [done EXCEPT ![c] = TRUE] ELSE done)
            /\ UNCHANGED <<queue, accepted, sent, polls, early>>
Done(c) == /\ pc[c] >= 3 /\ ~done[c] /\ queue = 0
           /\ (Bug = "once" => \A o \in Calls : ~done[o])
           /\ done' = [done EXCEPT ![c] = TRUE]
           /\ UNCHANGED <<samp, thr, open, queue, accepted, sent, polls, pc, early>>
Next == Poll(samp) \/ Poll(thr) \/ Finish \/ Deliver \/ \E c \in Calls : Close(c) \/ Done(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver) /\ \A c \in Calls : WF_vars(Close(c)) /\ WF_vars(Done(c))
Silent == ~early
DoneMeansSent == (\E c \in Calls : done[c]) => sent = accepted
Completes == \A c \in Calls : <>done[c]
=============================================================================
