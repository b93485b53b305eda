------------------------------- MODULE ErrTrace -------------------------------
(* Rounds of errors, each by several threads at one time t: how many messages were   *)
(* logged.  Times are in units of the interval's fraction 1/cfg.I.                    *)
EXTENDS Naturals, TraceLib
VARIABLES tr, l, last, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ last = 0
Due(g, e) == g.logger /\ e.calls > 0 /\ e.t > last + g.I
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ \E e \in {Traces[tr].ev[l + 1]}, g \in {Traces[tr].cfg} :
              /\ last' = (IF Due(g, e) THEN e.t ELSE last)
              /\ bad' = Mark(bad, (IF e.logs # (IF Due(g, e) THEN 1 ELSE 0) THEN {"logged"} ELSE {})
                                  \cup (IF ~e.same THEN {"arguments"} ELSE {}) \cup (IF e.err # "" THEN {"error"} ELSE {}), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
