------------------------------- MODULE CredLin -------------------------------
(* Threads on one throttler: every question and every response takes effect       *)
(* atomically between its call and its return.                                     *)
EXTENDS Cred, TraceLib
VARIABLES tr, l, X, bad
Idle == <<>>
One == Traces[tr].cfg.one
TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         /\ X = {[c |-> FoldLeft(AfterResp, NoCredit, Traces[tr].cfg.first), p |-> [t \in 1..4 |-> Idle]]}
Fire(x, t) == LET e == x.p[t][1] IN
  IF e.k = "ask" THEN [c |-> AfterAsk(x.c, e.op, One), p |-> [x.p EXCEPT ![t] = <<e, May(x.c, e.op, One)>>]]
  ELSE [c |-> AfterResp(x.c, e), p |-> [x.p EXCEPT ![t] = <<e, FALSE>>]]
RECURSIVE Close(_)
Close(S) == LET Y == S \cup UNION {{Fire(x, t) : t \in {u \in 1..4 : Len(x.p[u]) = 1}} : x \in S} IN IF Y = S THEN S ELSE Close(Y)
Event(S, e) ==
  CASE e.k = "call" -> {[x EXCEPT !.p[e.t] = <<e.what>>] : x \in S}
    [] e.k = "ret" -> {[x EXCEPT !.p[e.t] = Idle] : x \in {y \in S : Len(y.p[e.t]) = 2 /\ y.p[e.t][2] = e.yes}}
    [] OTHER -> {}
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ \E Y \in {Event(Close(X), Traces[tr].ev[l + 1])} :
              IF Y # {} THEN X' = Y /\ bad' = bad
              ELSE X' = X /\ bad' = Mark(bad, {IF Traces[tr].ev[l + 1].k = "ret" THEN "linearizable" ELSE Traces[tr].ev[l + 1].k}, l + 1)
TEnd == (l = Len(Traces[tr].ev) \/ bad # {}) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
