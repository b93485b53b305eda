------------------------------- MODULE AddrTrace -------------------------------
(* Tracers made on machines of all kinds.                                           *)
EXTENDS Addr, TraceLib
VARIABLES tr, l, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
If(c, x) == IF c THEN {x} ELSE {}
EvBad(g, e) ==
  If(e.raised # "", "raised") \cup If(e.raised = "" /\ e.ip # (IF g.tag_ip # <<>> THEN g.tag_ip ELSE Ip(g)), "ip")
  \cup If(e.raised = "" /\ e.host # (IF g.tag_host # <<>> THEN g.tag_host ELSE g.name), "hostname")
  \cup If(e.raised = "" /\ ~e.version, "version")
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ bad' = Mark(bad, EvBad(Traces[tr].cfg, Traces[tr].ev[l + 1]), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
