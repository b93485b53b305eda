------------------------------- MODULE InitOnce -------------------------------
(* The global tracer: the first initialization of a process installs its tracer,    *)
(* every other one has no effect.                                                   *)
NoTracer == 0
Fresh == [done |-> FALSE, winner |-> 0]
\* caller n initializes
AfterInit(s, n) == IF s.done THEN s ELSE [done |-> TRUE, winner |-> n]
Wins(s) == ~s.done
=============================================================================
