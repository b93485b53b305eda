------------------------------- MODULE HopTrace -------------------------------
(* Recorded runs of several services.  After every event: what every span says of   *)
(* itself (views); at the end: what reached the agents (wire).  Ids are strings.    *)
EXTENDS Hop, TraceLib
VARIABLES tr, l, m, ids, bad
vars == <<tr, l, m, ids, bad>>
G == Traces[tr].cfg
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ m = M0 /\ ids = <<>> /\ bad = {}
If(c, x) == IF c THEN {x} ELSE {}
Set(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
\* the span that was just started
BornBad(x, o) ==
  LET h == Len(x.sp)
      s == x.sp[h]
      same == {g \in 1..(h - 1) : x.sp[g].tr = s.tr} IN
  If(\E g \in 1..(h - 1) : ids[g].sid = o.sid, "ids")
  \cup If(\E g \in 1..(h - 1) : (ids[g].tid = o.tid) # (g \in same), "trace")
  \cup If(o.par # (IF s.par = 0 THEN "" ELSE ids[s.par].sid), "parent")
  \cup If(o.asked # (IF s.asked THEN 1 ELSE 0), "asked")
ViewBad(x, v) ==
  If(Len(v) # Len(x.sp), "views")
  \cup (IF Len(v) # Len(x.sp) THEN {} ELSE
        UNION {If(v[h].on # x.sp[h].on \/ v[h].dbg # x.sp[h].dbg, "decision") \cup If(Set(v[h].bag) # x.sp[h].bag, "baggage") : h \in 1..Len(v)})
Sent(x, i) == {h \in 1..Len(x.sp) : x.sp[h].svc = i /\ x.sp[h].fin /\ x.sp[h].on}
WireBad(x, w) ==
  UNION {LET a == w[i] IN
         If({a[j].h : j \in DOMAIN a} # Sent(x, i) \/ Len(a) # Cardinality(Sent(x, i)), "arrival")
         \cup UNION {IF a[j].h \notin 1..Len(x.sp) THEN {} ELSE
                     LET s == x.sp[a[j].h]
                         d == ids[a[j].h] IN
                     If(a[j].svc # G.names[i], "service")
                     \cup If(a[j].tid # d.tid \/ a[j].sid # d.sid, "ids")
                     \cup If(a[j].par # (IF s.par = 0 THEN "" ELSE ids[s.par].sid), "parent")
                     \cup If(a[j].refs # (IF s.par # 0 /\ d.ref THEN <<<<s.rel, ids[s.par].tid, ids[s.par].sid>>>> ELSE <<>>), "references")
                     \cup If(a[j].fl # (IF s.dbg THEN 3 ELSE 1), "flags") \cup If(a[j].stag # (s.asked /\ s.first), "sampler_tags") : j \in DOMAIN a} : i \in DOMAIN w}
Judge(e, x) == If(e.err # "", "raised")
               \cup (IF e.err = "" /\ e.out.sid # "" THEN BornBad(x, e.out) ELSE {})
               \cup ViewBad(x, e.views) \cup (IF e.k = "end" THEN WireBad(x, e.wire) ELSE {})
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ LET e == Traces[tr].ev[l + 1]
                x == Step(m, e, G.b3) IN
            /\ m' = x /\ ids' = (IF Len(x.sp) > Len(m.sp) THEN Append(ids, e.out) ELSE ids)
            /\ bad' = Mark(bad, Judge(e, x), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
