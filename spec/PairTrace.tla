------------------------------- MODULE PairTrace -------------------------------
(* Uses of several tracers of one process, all of which are looked at after every one. *)
EXTENDS Pair, TraceLib
VARIABLES tr, l, m, bad
vars == <<tr, l, m, bad>>
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ m = M0(Len(Traces[tr].cfg.g)) /\ bad = {}
G == Traces[tr].cfg.g
If(c, x) == IF c THEN {x} ELSE {}
Ids == {m.sp[h].sid : h \in 1..Len(m.sp)}
Tids == {m.sp[h].tid : h \in 1..Len(m.sp)}
StartBad(e, s) ==
  LET o == e.out
      p == Parent(m, G, e) IN
  If(o.tid # s.tid \/ o.par # s.par \/ (e.srv /\ G[e.i].one /\ p.yes /\ o.sid # s.sid), "trace")
  \cup If(~p.yes /\ (o.wide # G[e.i].wide \/ o.tid \in Tids), "ids")
  \cup If(~(e.srv /\ G[e.i].one /\ p.yes) /\ o.sid \in Ids, "ids")
  \cup If(o.dtags # (IF ~p.yes /\ p.dbg THEN <<G[e.i].dhdr>> ELSE <<>>), "debug")
  \cup If(o.on # s.on \/ o.dbg # s.dbg, "sampled") \cup If(o.bag # s.bag, "baggage") \cup If(o.svc # G[e.i].svc, "tracer")
Judge(e, x) ==
  LET a == IF e.k \in {"tag", "bag", "finish"} THEN m.sp[e.n].i ELSE e.i IN
  If(e.err # "", "raised")
  \cup (IF e.err = "" /\ e.k = "start" THEN StartBad(e, x.sp[Len(x.sp)]) ELSE {})
  \cup If(e.err = "" /\ e.k = "inject" /\ e.fmt # "bin" /\
          e.names # {G[e.i].hdr} \cup {G[e.i].pre \o k : k \in DOMAIN m.sp[e.n].bag}, "names")
  \cup UNION {LET v == e.views[i]
                  w == View(x, i) IN
              IF ~x.tr[i].made THEN If(v.sent # <<>>, IF i = a THEN "own" ELSE "apart")
              ELSE If(v.started # w.started \/ v.finished # w.finished \/ v.sent # w.sent \/ v.active # w.active, IF i = a THEN "own" ELSE "apart")
                   \cup If(v.who # {} /\ v.who # {G[i].svc}, "service") \cup If(v.tags # {} /\ v.tags # {G[i].tags}, "tags")
                   \cup If(v.stray # <<>>, "stray") : i \in 1..Len(G)}
Sets(e) == [e EXCEPT !.names = {e.names[j] : j \in DOMAIN e.names},
                     !.views = [i \in DOMAIN e.views |-> [e.views[i] EXCEPT !.who = {e.views[i].who[j] : j \in DOMAIN e.views[i].who},
                                                                           !.tags = {e.views[i].tags[j] : j \in DOMAIN e.views[i].tags}]]]
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ LET e == Sets(Traces[tr].ev[l + 1])
                x == Step(m, G, e, e.out.tid, e.out.sid) IN
            m' = x /\ bad' = Mark(bad, Judge(e, x), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
