---------------------------------- MODULE Pair ----------------------------------
(* Several tracers in one process.  A tracer of configuration g has names of its     *)
(* own for headers, counters, an active span, and an agent of its own; contexts       *)
(* go from one to the other only as parents and in carriers.                            *)
(* g: hdr, pre, dhdr (names of headers), wide (ids of 128 bits), on (samples), max       *)
(* (length of tags), one (one span per call).                                             *)
EXTENDS Naturals, Sequences, TLC
T0 == [made |-> FALSE, closed |-> FALSE, started |-> 0, finished |-> 0, sent |-> <<>>, stack |-> <<>>]
M0(n) == [tr |-> [i \in 1..n |-> T0], sp |-> <<>>, ca |-> <<>>]
NoBag == [x \in {} |-> ""]
None == [yes |-> FALSE, dbg |-> FALSE, bag |-> NoBag]
Ctx(s) == [yes |-> TRUE, dbg |-> s.dbg, tid |-> s.tid, sid |-> s.sid, par |-> s.par, on |-> s.on, bag |-> s.bag]
\* what a tracer reads from a carrier
Read(g, c) ==
  IF c.kind = "debug" THEN [None EXCEPT !.dbg = (c.dhdr = g.dhdr)]
  ELSE IF c.kind = "bin" THEN c.ctx
  ELSE IF c.hdr # g.hdr THEN [None EXCEPT !.bag = IF c.pre = g.pre THEN c.ctx.bag ELSE @]
  ELSE [c.ctx EXCEPT !.bag = IF c.pre = g.pre THEN @ ELSE NoBag]
\* the parent of a span started by e
Parent(m, G, e) ==
  IF e.n > 0 THEN Ctx(m.sp[e.n])
  ELSE IF e.c > 0 THEN Read(G[e.i], m.ca[e.c])
  ELSE IF ~e.ign /\ m.tr[e.i].stack # <<>> THEN Ctx(m.sp[m.tr[e.i].stack[Len(m.tr[e.i].stack)]])
  ELSE None
\* tid, sid: fresh ids, of which the span uses what it needs
New(m, G, e, tid, sid) ==
  LET p == Parent(m, G, e) IN
  IF p.yes THEN [i |-> e.i, tid |-> p.tid, sid |-> IF e.srv /\ G[e.i].one THEN p.sid ELSE sid, par |-> IF e.srv /\ G[e.i].one THEN p.par ELSE p.sid,
                 on |-> p.on, dbg |-> p.dbg, bag |-> p.bag, lens |-> <<>>, fin |-> FALSE]
  ELSE [i |-> e.i, tid |-> tid, sid |-> sid, par |-> "", on |-> (p.dbg \/ G[e.i].on), dbg |-> p.dbg, bag |-> p.bag, lens |-> <<>>, fin |-> FALSE]
Cut(g, n) == IF n > g.max THEN g.max ELSE n
Step(m, G, e, tid, sid) ==
  CASE e.k = "make" -> [m EXCEPT !.tr[e.i].made = TRUE]
    [] e.k = "start" -> [m EXCEPT !.sp = Append(@, New(m, G, e, tid, sid)), !.tr[e.i].started = @ + 1,
                                  !.tr[e.i].stack = IF e.act THEN Append(@, Len(m.sp) + 1) ELSE @]
    [] e.k = "leave" -> [m EXCEPT !.tr[e.i].stack = SubSeq(@, 1, Len(@) - 1)]
    [] e.k = "tag" -> [m EXCEPT !.sp[e.n].lens = IF m.sp[e.n].on THEN Append(@, Cut(G[m.sp[e.n].i], e.len)) ELSE @]
    [] e.k = "bag" -> [m EXCEPT !.sp[e.n].bag = (e.key :> e.val) @@ @]
    [] e.k = "finish" -> IF m.sp[e.n].fin THEN m
                         ELSE LET s == m.sp[e.n] IN
                              [m EXCEPT !.sp[e.n].fin = TRUE, !.tr[s.i].finished = IF s.on THEN @ + 1 ELSE @,
                                        !.tr[s.i].sent = IF s.on /\ ~m.tr[s.i].closed THEN Append(@, [sid |-> s.sid, lens |-> s.lens]) ELSE @]
    [] e.k = "inject" -> [m EXCEPT !.ca = Append(@, [kind |-> e.fmt, hdr |-> G[e.i].hdr, pre |-> G[e.i].pre, ctx |-> Ctx(m.sp[e.n])])]
    [] e.k = "debug" -> [m EXCEPT !.ca = Append(@, [kind |-> "debug", dhdr |-> G[e.i].dhdr])]
    [] e.k = "close" -> [m EXCEPT !.tr[e.i].closed = TRUE]
    [] OTHER -> m
\* the tracer on whose behalf e happens
Actor(m, e) == IF e.k \in {"tag", "bag", "finish"} THEN m.sp[e.n].i ELSE e.i
\* what can be seen of tracer i
View(m, i) == [started |-> m.tr[i].started, finished |-> m.tr[i].finished, sent |-> m.tr[i].sent,
               active |-> IF m.tr[i].stack = <<>> THEN "" ELSE m.sp[m.tr[i].stack[Len(m.tr[i].stack)]].sid]
=============================================================================
