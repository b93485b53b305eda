-------------------------------- MODULE ExcTrace --------------------------------
(* Blocks of the real code.  cfg: max, maxtb (limits of tags and tracebacks), excs (the   *)
(* exceptions: message, kind, as characters).  An error record of the code is the list      *)
(* of its log fields; e.tb: traceback of the exception when it left the block.               *)
EXTENDS Exc, TraceLib
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ s = S0 /\ bad = {}
G == Traces[tr].cfg
If(c, x) == IF c THEN {x} ELSE {}
Cut(t, n) == IF Len(t) > n THEN SubSeq(t, 1, n) ELSE t
Keys == {"event", "message", "error.object", "error.kind", "stack"}
\* r: a record of the code; x: number of the exception and its traceback
RecordOk(r, x) == /\ DOMAIN r = Keys
                  /\ r["event"] = G.error /\ r["message"] = Cut(G.excs[x.n].msg, G.max) /\ r["error.object"] = Cut(G.excs[x.n].msg, G.max)
                  /\ r["error.kind"] = Cut(G.excs[x.n].kind, G.max) /\ r["stack"] = Cut(x.tb, G.maxtb)
Same(rep, a) == /\ Len(a) = Len(rep)
                /\ \A i \in 1..Len(rep) : a[i].n = rep[i].n
Judge(e, y) ==
  If(e.active # Active(y), "active") \cup If(~Same(y.rep, e.rep), "reported") \cup If(e.err # "", "raised")
  \cup If(e.k = "unwind" /\ ~e.same, "passed_on")
  \cup (IF Same(y.rep, e.rep) THEN
          UNION {LET a == e.rep[i]
                     b == y.rep[i].errs IN
                 If(a.tags # Len(b) \/ Len(a.logs) # Len(b), "count") \cup
                 (IF Len(a.logs) = Len(b) /\ \E j \in 1..Len(b) : ~RecordOk(a.logs[j], b[j]) THEN {"record"} ELSE {}) : i \in 1..Len(y.rep)}
        ELSE {})
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ LET e == Traces[tr].ev[l + 1]
                y == Step(s, IF e.k = "unwind" THEN [k |-> "unwind", x |-> [n |-> e.x, tb |-> e.tb]] ELSE e) IN
            s' = y /\ bad' = Mark(bad, Judge(e, y), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
