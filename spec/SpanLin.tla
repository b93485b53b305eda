-------------------------------- MODULE SpanLin --------------------------------
(* Linearizability of the operations of one span.  Every operation takes effect  *)
(* in one atomic step between its call and its return (setting baggage in two:   *)
(* the context, then the log record); the span is reported by the one finish     *)
(* that took effect first, before that call returns.                             *)
EXTENDS TraceLib
VARIABLES tr, l, S
ToSet(s) == {s[i] : i \in 1..Len(s)}
Idle == [o |-> "none"]
S0(c) == [tags |-> c.tags, logs |-> <<>>, bag |-> ToSet(c.bag), op |-> c.op, fin |-> FALSE, en |-> <<>>, rep |-> 0]
X0(c) == [s |-> S0(c), p |-> [t \in 1..c.threads |-> Idle], bad |-> {}, all |-> 0]

\* the next atomic step of the operation p of a thread: [s, p]
Has(bag, k) == \E q \in bag : q[1] = k
Val(bag, k) == (CHOOSE q \in bag : q[1] = k)[2]
Atom(s, p) ==
  CASE p.o = "tag" -> [s |-> [s EXCEPT !.tags = Append(@, <<p.k, p.v>>)], p |-> [p EXCEPT !.pc = "done"]]
    [] p.o = "log" -> [s |-> [s EXCEPT !.logs = Append(@, p.f)], p |-> [p EXCEPT !.pc = "done"]]
    [] p.o = "setop" -> [s |-> [s EXCEPT !.op = p.v], p |-> [p EXCEPT !.pc = "done"]]
    [] p.o = "bag" /\ p.pc = "start" ->
         [s |-> [s EXCEPT !.bag = {q \in @ : q[1] # p.k} \cup {<<p.k, p.v>>}],
          p |-> [p EXCEPT !.pc = "log", !.over = Has(s.bag, p.k)]]
    [] p.o = "bag" /\ p.pc = "log" ->
         [s |-> [s EXCEPT !.logs = Append(@, <<<<"event", "s:baggage">>, <<"key", "s:" \o p.k>>, <<"value", "s:" \o p.v>>>>
                                             \o (IF p.over THEN <<<<"override", "s:true">>>> ELSE <<>>))],
          p |-> [p EXCEPT !.pc = "done"]]
    [] p.o = "getbag" -> [s |-> s, p |-> [p EXCEPT !.pc = "done", !.res = IF Has(s.bag, p.k) THEN <<Val(s.bag, p.k)>> ELSE <<>>]]
    [] p.o = "encode" -> [s |-> s, p |-> [p EXCEPT !.pc = "done", !.res = <<[tags |-> s.tags, logs |-> s.logs, op |-> s.op]>>]]
    [] p.o = "child" -> [s |-> s, p |-> [p EXCEPT !.pc = "done", !.res = <<s.bag>>]]
    [] p.o = "finish" ->
         IF s.fin THEN [s |-> s, p |-> [p EXCEPT !.pc = "done"]]
         ELSE [s |-> [s EXCEPT !.fin = TRUE, !.en = p.ft], p |-> [p EXCEPT !.pc = "report"]]
Ready(x) == {t \in DOMAIN x.p : x.p[t].o # "none" /\ x.p[t].pc \in {"start", "log"}}
Fire(x, t) == LET a == Atom(x.s, x.p[t]) IN [x EXCEPT !.s = a.s, !.p[t] = a.p]
RECURSIVE Close(_)
Close(X) == LET Y == X \cup UNION {{Fire(x, t) : t \in Ready(x)} : x \in X}
            IN IF Y = X THEN X ELSE Close(Y)

Out(x, bad) == [x |-> x, bad |-> bad]
Event(x, e) ==
  CASE e.k = "call" ->
         {Out([x EXCEPT !.p[e.t] = e.op], {})}
    [] e.k = "report" ->
         \* seen inside of a finish call
         LET p == x.p[e.t] IN
         IF p.o = "none" THEN {Out(x, {"report_alien"})}
         ELSE IF p.o = "finish" /\ p.pc = "start" THEN {}      \* wait for its effect
         ELSE {Out([x EXCEPT !.p[e.t].pc = "done", !.s.rep = @ + 1],
                   (IF p.o # "finish" \/ p.pc # "report" THEN {"report_twice"} ELSE {}) \cup
                   (IF e.en # x.s.en THEN {"report_end"} ELSE {}))}
    [] e.k = "ret" ->
         LET p == x.p[e.t] IN
         IF p.pc \in {"start", "log"} THEN {}
         ELSE {Out([x EXCEPT !.p[e.t] = Idle],
                   (IF p.o = "finish" /\ p.pc = "report" THEN {"report_missing"} ELSE {}) \cup
                   (IF p.o \in {"getbag", "encode"} /\ e.res # p.res THEN {"result_" \o p.o} ELSE {}) \cup
                   (IF p.o = "child" /\ {ToSet(e.res[1])} # {p.res[1]} THEN {"result_child"} ELSE {}))}
    [] e.k = "final" ->
         {Out(x, (IF e.tags # x.s.tags THEN {"lost_tags"} ELSE {}) \cup
                 (IF e.logs # x.s.logs THEN {"lost_logs"} ELSE {}) \cup
                 (IF ToSet(e.bag) # x.s.bag THEN {"lost_baggage"} ELSE {}) \cup
                 (IF e.op # x.s.op THEN {"lost_op"} ELSE {}) \cup
                 (IF e.en # x.s.en THEN {"end_time"} ELSE {}) \cup
                 (IF e.fin # x.s.fin THEN {"finished"} ELSE {}) \cup
                 (IF e.nrep # (IF x.s.fin THEN 1 ELSE 0) THEN {"reports"} ELSE {}))}
    [] OTHER -> {Out(x, {e.k})}          \* deadlock, exception

TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ S = {X0(Traces[tr].cfg)}
TNext == /\ l < Len(Traces[tr].ev)
         /\ l' = l + 1 /\ tr' = tr
         /\ \E C \in {Close(S)} :
            \E X \in {UNION {{[o.x EXCEPT !.bad = Mark(x.bad, o.bad, l + 1), !.all = @ + Cardinality(o.bad)] :
                               o \in Event(x, Traces[tr].ev[l + 1])} : x \in C}} :
            \E n \in {MinOf({Cardinality(x.bad) : x \in X})} :
            \E A \in {{x \in X : Cardinality(x.bad) = n}} :
            \E k \in {MinOf({x.all : x \in A})} :
               S' = {x \in A : x.all = k}
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> (CHOOSE s \in S : TRUE).bad]))
=============================================================================
