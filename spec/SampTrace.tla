------------------------------- MODULE SampTrace -------------------------------
(* Recorded decisions and strategy updates against the meaning of the samplers.  *)
(*  cfg: init sampler (as NewX arguments), max, q, remote                          *)
EXTENDS Samp, TraceLib
VARIABLES tr, l, bad, s, n
Cfg == Traces[tr].cfg
First(c) == CASE c.init.kind = "const" -> NewConst(c.init.yes)
              [] c.init.kind = "prob" -> NewProb(c.init.p)
              [] c.init.kind = "rate" -> NewRate(c.init.r, c.now, c.q)
              [] c.init.kind = "guar" -> NewGuar(c.init.p, c.init.lb, c.now, c.q)
              [] c.init.kind = "adapt" -> NewAdapt(c.init, c.max, c.now, c.q)
TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         \* a remote sampler tries its first sampler once
         /\ \E s0 \in {First(Traces[tr].cfg)} :
              s = IF Traces[tr].cfg.remote /\ s0.kind = "rate" THEN [s0 EXCEPT !.L = SpendAny(@)] ELSE s0
         /\ n = [retr |-> 0, qerr |-> 0, upd |-> 0, uerr |-> 0]
Count(x, e, r) == IF e.kind \in {"garbage", "failed"} THEN [x EXCEPT !.qerr = @ + 1]
                  ELSE [x EXCEPT !.retr = @ + 1, !.upd = @ + r.upd, !.uerr = @ + r.err]
CntBad(x, e) == IF ~Cfg.remote THEN {} ELSE
  (IF e.cnt.retr # x.retr \/ e.cnt.qerr # x.qerr THEN {"queries"} ELSE {}) \cup
  (IF e.cnt.upd # x.upd \/ e.cnt.uerr # x.uerr THEN {"updates"} ELSE {})
Clause == CASE s.kind \in {"const", "prob"} -> "decision" [] s.kind = "rate" -> "rate_decision"
            [] OTHER -> "adaptive_decision"
TNext ==
  /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
  /\ \E e \in {Traces[tr].ev[l + 1]} :
     CASE e.k = "ask" ->
            \E a \in {Ask(s, e.tid, e.op, e.now, Cfg.q)} :
              /\ s' = a.after[e.yes] /\ n' = n
              /\ bad' = Mark(bad, (IF e.yes \notin a.yes THEN {Clause} ELSE {}) \cup
                                  (IF e.yes /\ e.tags # a.tags THEN {"tags"} ELSE {}) \cup
                                  (IF e.raised # "" THEN {"raised"} ELSE {}) \cup CntBad(n, e), l + 1)
       [] e.k = "resp" ->
            \E r \in {Strategy(s, e, Cfg.max, e.now, Cfg.q)} :
              /\ s' = r.s /\ n' = Count(n, e, r)
              /\ bad' = Mark(bad, (IF e.raised # "" THEN {"raised"} ELSE {}) \cup CntBad(n', e), l + 1)
       [] e.k = "upd" ->       \* direct calls of update
            /\ n' = n
            /\ s' = CASE s.kind = "rate" -> [s EXCEPT !.L = Rescale(@, e.r, e.now)]
                      [] s.kind = "guar" -> UpdGuar(s, e.p, e.lb, e.now)
                      [] s.kind = "adapt" -> IF e.ok THEN UpdAdapt(s, e, e.now, Cfg.q) ELSE s
            /\ bad' = Mark(bad, (IF s.kind = "rate" /\ e.changed # (s.L.rate # e.r) THEN {"changed"} ELSE {}) \cup
                                (IF (e.raised = "") # e.ok THEN {"raised"} ELSE {}), l + 1)
       [] e.k = "parse" ->     \* a strategy in its Thrift form becomes a sampler, or an error
            /\ n' = n
            /\ s' = CASE e.kind = "prob" -> NewProb(e.p) [] e.kind = "rate" -> NewRate(e.r, e.now, Cfg.q) [] OTHER -> s
            /\ bad' = Mark(bad, (IF e.got # (e.kind # "invalid") \/ e.error # (e.kind = "invalid") THEN {"parsed"} ELSE {}) \cup
                                (IF e.raised # "" THEN {"raised"} ELSE {}), l + 1)
       [] e.k = "eq" ->        \* comparison with a new sampler
            /\ s' = s /\ n' = n
            /\ bad' = Mark(bad, IF ToString(e.same) # ToString(s.kind = "rate" /\ e.other.kind = "rate" /\ s.L.rate = e.other.r) THEN {"equal"} ELSE {}, l + 1)
       [] e.k = "ctor" ->
            /\ s' = s /\ n' = n
            /\ bad' = Mark(bad, IF e.accepted # e.valid THEN {"validation"} ELSE {}, l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
