-------------------------------- MODULE SampLin --------------------------------
(* Samplers used by several threads: every question and every strategy takes      *)
(* effect atomically between its call and its return.  X: the possible states.     *)
EXTENDS Samp, TraceLib
VARIABLES tr, l, X, bad
Cfg == Traces[tr].cfg
First(c) == CASE c.init.kind = "prob" -> NewProb(c.init.p)
              [] c.init.kind = "rate" -> NewRate(c.init.r, c.now, c.q)
              [] c.init.kind = "guar" -> NewGuar(c.init.p, c.init.lb, c.now, c.q)
              [] c.init.kind = "adapt" -> NewAdapt(c.init, c.max, c.now, c.q)
Idle == <<>>
TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         /\ \E s0 \in {First(Traces[tr].cfg)} :
              X = {[s |-> IF Traces[tr].cfg.remote /\ s0.kind = "rate" THEN [s0 EXCEPT !.L = SpendAny(@)] ELSE s0,
                    p |-> [t \in 1..4 |-> Idle]]}
\* one step of thread t: the outcomes
Fire(x, t) ==
  LET e == x.p[t][1] IN
  IF e.k = "ask" THEN LET a == Ask(x.s, e.tid, e.op, Cfg.now, Cfg.q) IN
       {[s |-> a.after[y], p |-> [x.p EXCEPT ![t] = <<e, [yes |-> y, tags |-> IF y THEN a.tags ELSE <<>>]>>]] : y \in a.yes}
  ELSE {[s |-> Strategy(x.s, e, Cfg.max, Cfg.now, Cfg.q).s, p |-> [x.p EXCEPT ![t] = <<e, [yes |-> FALSE, tags |-> <<>>]>>]]}
RECURSIVE Close(_)
Close(S) == LET Y == S \cup UNION {UNION {Fire(x, t) : t \in {u \in 1..4 : Len(x.p[u]) = 1}} : x \in S}
            IN IF Y = S THEN S ELSE Close(Y)
Event(S, e) ==
  CASE e.k = "call" -> {[x EXCEPT !.p[e.t] = <<e.what>>] : x \in S}
    [] e.k = "ret" -> {[x EXCEPT !.p[e.t] = Idle] : x \in {y \in S : Len(y.p[e.t]) = 2 /\ y.p[e.t][2] = [yes |-> e.yes, tags |-> e.tags]}}
    [] OTHER -> {}
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ \E Y \in {Event(Close(X), Traces[tr].ev[l + 1])} :
              IF Y # {} THEN X' = Y /\ bad' = bad
              ELSE X' = X /\ bad' = Mark(bad, {IF Traces[tr].ev[l + 1].k = "ret" THEN "linearizable" ELSE Traces[tr].ev[l + 1].k}, l + 1)
TEnd == (l = Len(Traces[tr].ev) \/ bad # {}) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
