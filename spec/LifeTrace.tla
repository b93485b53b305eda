------------------------------- MODULE LifeTrace -------------------------------
(* The life of a tracer as seen from outside: after every use the requests it     *)
(* made, the spans that left, the state of the futures of close.  cfg: remote,     *)
(* throttled (what it consists of), I (interval of both polls), F (flush            *)
(* interval), real (real threads and time: polls are not counted); times in         *)
(* seconds.  gone: futures whose callers no longer wait (they were cancelled).       *)
EXTENDS Naturals, TraceLib
VARIABLES tr, l, now,
          closed,      \* close was called
          accepted, sent, polls, creds,
          seen,        \* since when the throttler knows an operation (-1: not yet, as 0 with known)
          known, quiet, \* seconds since a span was accepted
          bad
vars == <<tr, l, now, closed, accepted, sent, polls, creds, seen, known, quiet, bad>>
TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ now = 0 /\ closed = FALSE /\ accepted = 0 /\ sent = 0 /\ polls = 0 /\ creds = 0
         /\ seen = 0 /\ known = FALSE /\ quiet = 0 /\ bad = {}
G == Traces[tr].cfg
E == Traces[tr].ev[l + 1]
Late == now + (IF E.k = "wait" THEN E.s ELSE 0)
Acc == accepted + (IF E.k = "span" /\ E.sampled /\ ~closed THEN 1 ELSE 0)
Alive == ~closed /\ ~G.real
\* the first poll comes within an interval, then one per interval
Judge == LET t == Late
             p == polls + E.polls
             c == creds + E.creds
             s == sent + E.sent
         IN (IF closed /\ E.polls + E.creds > 0 THEN {"silent"} ELSE {})
            \cup (IF (~G.remote /\ E.polls > 0) \/ (~G.throttled /\ E.creds > 0) \/ (~known /\ E.creds > 0) THEN {"unasked"} ELSE {})
            \cup (IF Alive /\ G.remote /\ (p < (t \div G.I) \/ p > (t \div G.I) + 1) THEN {"polls"} ELSE {})
            \cup (IF Alive /\ G.throttled /\ known /\ (c + 1 < ((t - seen) \div G.I) \/ c > (t \div G.I) + 1) THEN {"credits"} ELSE {})
            \cup (IF s > Acc THEN {"invented"} ELSE {})
            \cup (IF E.k = "wait" /\ Alive /\ quiet + E.s > G.F /\ s # Acc THEN {"flushed"} ELSE {})
            \cup (IF E.late \/ \E i \in DOMAIN E.done : (E.done[i] /\ ~E.gone[i] /\ s < Acc) THEN {"done_early"} ELSE {})
            \cup (IF (closed \/ E.k = "close") /\ \E i \in DOMAIN E.done : ~(E.done[i] \/ E.gone[i]) THEN {"done"} ELSE {})
            \cup (IF \E i \in DOMAIN E.home : ~E.home[i] THEN {"home"} ELSE {})
            \cup (IF E.err # "" \/ E.errs # <<>> THEN {"raised"} ELSE {})
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ now' = Late /\ closed' = (closed \/ E.k = "close")
         /\ accepted' = Acc /\ sent' = sent + E.sent /\ polls' = polls + E.polls /\ creds' = creds + E.creds
         /\ quiet' = (IF E.k = "wait" THEN quiet + E.s ELSE IF Acc > accepted THEN 0 ELSE quiet)
         /\ known' = (known \/ E.debug) /\ seen' = (IF E.debug /\ ~known THEN now ELSE seen)
         /\ bad' = Mark(bad, Judge, l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
