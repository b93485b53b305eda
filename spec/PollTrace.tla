------------------------------- MODULE PollTrace -------------------------------
(* Recorded requests of pollers.  cfg.kind "sampler" | "throttler", cfg.I the     *)
(* interval in ticks, cfg.loop whether there is an event loop.                    *)
(*  m.base   time of the first request, -1 as long as none was made                *)
(*  m.since  since when there is something to ask for, -1: nothing yet              *)
EXTENDS TraceLib, Integers, SequencesExt
VARIABLES tr, l, bad, m
Cfg == Traces[tr].cfg
TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         /\ m = [t |-> 0, base |-> -1, since |-> IF Traces[tr].cfg.kind = "sampler" THEN 0 ELSE -1, closed |-> FALSE,
                 ops |-> {}, client |-> "", ok |-> 0, err |-> 0, yes |-> FALSE, credit |-> [o \in {"a", "b"} |-> 0]]   \* in halves
\* times in (t0, t1] at which a request is due
Due(x, t1) == {t \in {x.base + k * Cfg.I : k \in 0..((IF t1 > x.base THEN t1 - x.base ELSE 0) \div Cfg.I)} : t > x.t /\ t <= t1}
Seq2(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Times(e) == [i \in 1..Len(e.reqs) |-> e.reqs[i].t]
Mx(a, b) == IF a > b THEN a ELSE b
ReqBad(x, e) ==
  IF x.closed \/ ~Cfg.loop \/ x.since = -1 THEN IF e.reqs # <<>> THEN {IF x.closed THEN "after_close" ELSE "unasked"} ELSE {}
  ELSE (IF x.base >= 0 THEN IF Times(e) # Seq2(Due(x, e.t)) THEN {"interval"} ELSE {}
        ELSE IF e.reqs = <<>> THEN IF e.t > x.since + Cfg.I THEN {"first_late"} ELSE {}
        ELSE IF e.reqs[1].t > x.since + Cfg.I \/ e.reqs[1].t < x.t THEN {"first_late"}
        ELSE IF Times(e) # Seq2(Due([x EXCEPT !.base = e.reqs[1].t, !.t = -1], e.t)) THEN {"interval"} ELSE {})
       \cup UNION {LET r == e.reqs[i] IN
            (IF r.service # "svc" THEN {"service"} ELSE {})
            \cup (IF {r.ops[j] : j \in 1..Len(r.ops)} # (IF Cfg.kind = "sampler" THEN {} ELSE x.ops) \/ Len(r.ops) # Cardinality(x.ops) * (IF Cfg.kind = "sampler" THEN 0 ELSE 1)
                  THEN {"operations"} ELSE {})
            \cup (IF Cfg.kind = "throttler" /\ r.client # x.client THEN {"client"} ELSE {}) : i \in 1..Len(e.reqs)}
AnswerOk(a) == a \in {"yes", "no", "other", "much"} \/ (Cfg.kind = "sampler" /\ a = "invalid")
Allowed(x, op) == IF Cfg.kind = "sampler" THEN x.yes ELSE op \in DOMAIN x.credit /\ x.credit[op] >= 2
\* the state after the event itself; requests are judged with the state before
Apply(x, e) ==
  LET y == [x EXCEPT !.t = e.t, !.base = IF @ = -1 /\ e.reqs # <<>> THEN e.reqs[1].t ELSE @] IN
  CASE e.k = "ask" /\ Cfg.kind = "throttler" ->
         [y EXCEPT !.ops = @ \cup {e.op}, !.since = IF @ = -1 THEN e.t ELSE @,
                   !.credit = IF Allowed(x, e.op) THEN [@ EXCEPT ![e.op] = @ - 2] ELSE @]
    [] e.k = "client" -> [y EXCEPT !.client = IF @ = "" THEN e.id ELSE @]
    [] e.k = "answer" ->
         LET z == [y EXCEPT !.ok = @ + (IF AnswerOk(e.what) THEN 1 ELSE 0), !.err = @ + (IF AnswerOk(e.what) THEN 0 ELSE 1)] IN
         IF Cfg.kind = "sampler" THEN [z EXCEPT !.yes = IF e.what \in {"yes", "no"} THEN e.what = "yes" ELSE @]
         ELSE [z EXCEPT !.credit = CASE e.what = "yes" -> [@ EXCEPT !["a"] = @ + 4]
                                       [] e.what = "much" -> [a |-> @["a"] + 2000, b |-> @["b"] + 25] [] OTHER -> @,
                        !.ops = @ \cup (CASE e.what = "yes" -> {"a"} [] e.what = "other" -> {"z"} [] e.what = "much" -> {"a", "b"} [] OTHER -> {})]
    [] e.k = "close" -> [y EXCEPT !.closed = TRUE]
    [] OTHER -> y
Judge(x, e, y) ==
  ReqBad(x, e) \cup (IF e.errs # <<>> THEN {"loop_error"} ELSE {}) \cup (IF e.raised # "" THEN {"raised"} ELSE {})
  \cup (IF e.ok # y.ok \/ e.err # y.err THEN {"counted"} ELSE {})
  \cup (IF e.k = "ask" /\ e.yes # Allowed(x, e.op) THEN {"decision"} ELSE {})
Race(e) == (IF e.late > 1 THEN {"late"} ELSE {}) \cup (IF e.more > 0 THEN {"after_close"} ELSE {})
           \cup (IF e.errs # <<>> THEN {"loop_error"} ELSE {}) \cup (IF e.dead THEN {"deadlock"} ELSE {})
           \cup (IF e.excs # <<>> THEN {"raised"} ELSE {})
\* first polls of many pollers: somewhere in the interval, not all in one place
Spread(e) == LET S == {e.delays[i] : i \in 1..Len(e.delays)} IN
  (IF Len(e.delays) # e.n \/ \E d \in S : d > Cfg.I THEN {"first_late"} ELSE {})
  \cup (IF ~(\E d \in S : 4 * d < Cfg.I) \/ ~(\E d \in S : 4 * d > 3 * Cfg.I) \/ Cardinality(S) < e.n \div 2 THEN {"spread"} ELSE {})
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ LET e == Traces[tr].ev[l + 1] IN
            IF e.k = "race" THEN m' = m /\ bad' = Mark(bad, Race(e), l + 1)
            ELSE IF e.k = "spread" THEN m' = m /\ bad' = Mark(bad, Spread(e), l + 1)
            ELSE \E y \in {Apply(m, e)} : m' = y /\ bad' = Mark(bad, Judge(m, e, y), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
