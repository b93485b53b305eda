---------------------------------- MODULE Hop ----------------------------------
(* Requests that travel between services.  A span belongs to a trace (tr), is      *)
(* caused by another span (par, 0: it is a root), and has the decision (on, dbg)     *)
(* and the baggage (a set of <<key, value>>) that it was born with, until it is      *)
(* told otherwise itself.  A message carries what its sender had when it was sent.   *)
(* Proxies may strip a message of its trace headers, its baggage headers, or both.    *)
EXTENDS Naturals, Sequences
M0 == [sp |-> <<>>, msg |-> <<>>, tr |-> 0, now |-> 0, sets |-> <<>>]
Span(svc, tr, par, on, dbg, bag, asked, born, rel) ==
  [svc |-> svc, tr |-> tr, par |-> par, on |-> on, dbg |-> dbg, bag |-> bag, asked |-> asked, born |-> born, rel |-> rel, fin |-> FALSE, first |-> on,
   forced |-> FALSE]
Root(m, e, dbg, bag) == [m EXCEPT !.tr = @ + 1,
                           !.sp = Append(@, Span(e.svc, m.tr + 1, 0, dbg \/ e.yes, dbg, bag, ~dbg, m.now, "none"))]
\* what is left of a message on its way to e.svc
Left(m, e) == LET x == m.msg[e.n] IN
              [trace |-> e.strip \notin {"all", "trace"},
               bag |-> IF e.strip \in {"all", "bag"} THEN {} ELSE x.bag]
\* b3: the services use HTTP headers that have no place for baggage
Carried(b3, fmt, bag) == IF b3 /\ fmt = "http" THEN {} ELSE bag
Do(m, e, b3) ==
  CASE e.k = "root" -> Root(m, e, FALSE, {})
    [] e.k = "debug" -> Root(m, e, TRUE, {})
    [] e.k = "child" -> LET p == m.sp[e.n] IN
         [m EXCEPT !.sp = Append(@, Span(p.svc, p.tr, e.n, p.on, p.dbg, p.bag, FALSE, m.now, e.rel))]
    [] e.k = "bag" -> [m EXCEPT !.sp[e.n].bag = {p \in @ : p[1] # e.key} \cup {<<e.key, e.v>>}, !.sets = Append(@, <<e.n, m.now, e.v>>)]
    [] e.k = "force" -> [m EXCEPT !.sp[e.n].on = e.yes, !.sp[e.n].dbg = e.yes, !.sp[e.n].forced = TRUE]
    [] e.k = "finish" -> [m EXCEPT !.sp[e.n].fin = TRUE]
    [] e.k = "send" -> LET p == m.sp[e.n] IN
         [m EXCEPT !.msg = Append(@, [tr |-> p.tr, par |-> e.n, on |-> p.on, dbg |-> p.dbg, bag |-> Carried(b3, e.fmt, p.bag), at |-> m.now])]
    [] e.k = "recv" -> LET x == m.msg[e.n]
                           y == Left(m, e) IN
         IF y.trace THEN [m EXCEPT !.sp = Append(@, Span(e.svc, x.tr, x.par, x.on, x.dbg, y.bag, FALSE, x.at, e.rel))]
         ELSE Root(m, e, FALSE, y.bag)
    [] OTHER -> m
Step(m, e, b3) == [Do(m, e, b3) EXCEPT !.now = @ + 1]
=============================================================================
