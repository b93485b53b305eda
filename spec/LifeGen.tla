-------------------------------- MODULE LifeGen --------------------------------
(* Sequences of uses of a tracer, for the driver.                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Uses, Len0, MaxCloses
\* rush: several spans, and at once several closes; giveup: a close whose caller does not wait
Ends == {"close", "rush", "giveup"}
VARIABLES hist, closes
Init == hist = <<>> /\ closes = 0
Next == /\ Len(hist) < Len0
        /\ \E u \in Uses : /\ (u \in Ends => closes < MaxCloses)
                           /\ closes' = closes + (IF u \in Ends THEN 1 ELSE 0) /\ hist' = Append(hist, u)
Emit == (Len(hist) = Len0 /\ closes > 0) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
