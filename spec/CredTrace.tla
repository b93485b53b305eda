------------------------------- MODULE CredTrace -------------------------------
EXTENDS Cred, TraceLib
VARIABLES tr, l, bad, m
One == Traces[tr].cfg.one
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ m = [c |-> NoCredit, thr |-> 0, ok |-> 0, err |-> 0]
Apply(x, e) ==
  IF e.k = "ask" THEN [x EXCEPT !.c = AfterAsk(@, e.op, One), !.thr = IF May(x.c, e.op, One) THEN @ ELSE @ + 1]
  ELSE [x EXCEPT !.c = AfterResp(@, e), !.ok = IF e.kind = "credit" THEN @ + 1 ELSE @, !.err = IF e.kind = "bad" THEN @ + 1 ELSE @]
Judge(x, e, y) == (IF e.k = "ask" /\ e.yes # May(x.c, e.op, One) THEN {"allowed"} ELSE {})
                  \cup (IF e.thr # y.thr THEN {"throttled_count"} ELSE {}) \cup (IF e.ok # y.ok \/ e.err # y.err THEN {"counted"} ELSE {})
                  \cup (IF e.raised # "" THEN {"raised"} ELSE {})
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ LET e == Traces[tr].ev[l + 1] IN
            \E y \in {Apply(m, e)} : m' = y /\ bad' = Mark(bad, Judge(m, e, y), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
