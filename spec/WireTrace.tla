------------------------------- MODULE WireTrace -------------------------------
(* Decoded datagrams against what the application did.                          *)
EXTENDS Wire, TraceLib
VARIABLES tr, l, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
TNext == /\ l < Len(Traces[tr].ev)
         /\ l' = l + 1 /\ tr' = tr
         /\ bad' = Mark(bad, BatchBad(Traces[tr].cfg, Traces[tr].ev[l + 1]), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
