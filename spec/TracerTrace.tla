------------------------------ MODULE TracerTrace ------------------------------
(* Validation of recorded command sequences against the meaning of the tracer.  *)
EXTENDS TracerAbs, TraceLib
VARIABLES tr, l, m, bad
TInit == /\ tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         /\ m = M0(Traces[tr].cfg)
TNext == /\ l < Len(Traces[tr].ev)
         /\ l' = l + 1 /\ tr' = tr
         /\ \E o \in {Step(m, Traces[tr].ev[l + 1])} : m' = o.m /\ bad' = Mark(bad, o.bad, l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
