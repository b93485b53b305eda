------------------------------- MODULE InitTrace -------------------------------
(* Threads that initialize the global tracer or ask whether it is initialized.      *)
(* X: the possible states of the design between two events; p: what a thread is at:  *)
(* nothing, <<call>>, or <<call, answer>>.                                            *)
EXTENDS InitOnce, TraceLib
VARIABLES tr, l, X, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ X = {[s |-> Fresh, p |-> [t \in 1..4 |-> <<>>]]}
Fire(x, t) == LET e == x.p[t][1] IN
  IF e.what = "init" THEN [s |-> AfterInit(x.s, e.n), p |-> [x.p EXCEPT ![t] = <<e, Wins(x.s)>>]]
  ELSE [x EXCEPT !.p[t] = <<e, x.s.done>>]
RECURSIVE Close(_)
Close(S) == LET Y == S \cup UNION {{Fire(x, t) : t \in {u \in 1..4 : Len(x.p[u]) = 1}} : x \in S} IN IF Y = S THEN S ELSE Close(Y)
Event(S, e) ==
  CASE e.k = "call" -> {[x EXCEPT !.p[e.t] = <<e>>] : x \in S}
    [] e.k = "ret" -> {[x EXCEPT !.p[e.t] = <<>>] : x \in {y \in S : Len(y.p[e.t]) = 2 /\ y.p[e.t][2] = e.yes}}
    [] e.k = "end" -> {x \in S : e.global = x.s.winner}
    [] OTHER -> {}
\* a winner has installed its tracer, everybody else has got nothing but one warning
RetBad(e) == IF e.k # "ret" \/ e.what # "init" THEN {} ELSE
  (IF e.yes /\ e.global # e.n THEN {"installed"} ELSE {}) \cup (IF e.yes # (e.got = e.n) \/ e.got \notin {0, e.n} THEN {"returned"} ELSE {})
  \cup (IF e.warned # (IF e.yes THEN 0 ELSE 1) THEN {"warned"} ELSE {})
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ \E e \in {Traces[tr].ev[l + 1]}, Y \in {Event(Close(X), Traces[tr].ev[l + 1])} :
              IF Y # {} THEN X' = Y /\ bad' = Mark(bad, RetBad(e), l + 1)
              ELSE X' = X /\ bad' = Mark(bad, RetBad(e) \cup {IF e.k = "ret" THEN "once" ELSE e.k}, l + 1)
TEnd == (l = Len(Traces[tr].ev) \/ bad # {}) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
