------------------------------ MODULE InitDesign ------------------------------
(* Threads initialize the global tracer: look, mark, build, install.  Bug names a   *)
(* mutated design: no lock, a flag that is set after building, or an installation    *)
(* by everybody.                                                                     *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Threads, Bug
VARIABLES flag, lock, pc, got, global, asked
vars == <<flag, lock, pc, got, global, asked>>
Init == flag = FALSE /\ lock = 0 /\ pc = [t \in Threads |-> "start"] /\ got = [t \in Threads |-> 0] /\ global = 0
        /\ asked = [t \in Threads |-> FALSE]
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Lock(t) == Go(t, "start", "look") /\ (Bug # "nolock" => lock = 0) /\ lock' = t /\ UNCHANGED <<flag, got, global, asked>>
\* asked: whether somebody had initialized when this thread looked
Look(t) == /\ pc[t] = "look" /\ pc' = [pc EXCEPT ![t] = IF flag THEN (IF Bug = "install" THEN "build" ELSE "end") ELSE "mark"]
           /\ asked' = [asked EXCEPT ![t] = flag] /\ lock' = (IF flag THEN 0 ELSE lock) /\ UNCHANGED <<flag, got, global>>
Mark(t) == /\ Go(t, "mark", "build") /\ lock' = 0 /\ flag' = (IF Bug = "late" THEN flag ELSE TRUE) /\ UNCHANGED <<got, global, asked>>
Build(t) == Go(t, "build", "install") /\ got' = [got EXCEPT ![t] = t] /\ flag' = TRUE /\ UNCHANGED <<lock, global, asked>>
Install(t) == Go(t, "install", "end") /\ global' = t /\ UNCHANGED <<flag, lock, got, asked>>
Next == \E t \in Threads : Lock(t) \/ Look(t) \/ Mark(t) \/ Build(t) \/ Install(t)
Winners == {t \in Threads : got[t] # 0}
Once == Cardinality(Winners) <= 1
Installed == (\A t \in Threads : pc[t] = "end") => Cardinality(Winners) = 1 /\ global \in Winners
Told == \A t \in Threads : pc[t] = "end" /\ got[t] = 0 => asked[t]
=============================================================================
