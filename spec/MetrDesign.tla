------------------------------ MODULE MetrDesign ------------------------------
(* Threads create metrics that a registry holds at most once per name: look into the *)
(* cache, register, remember, count.  Tags come in some order.  Bug names a mutated   *)
(* design.                                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Bug
Orders == {<<"a", "b">>, <<"b", "a">>}
Names == {"x", "xa"}
VARIABLES cache, registry, pc, lock, want, value, raised, inc
vars == <<cache, registry, pc, lock, want, value, raised, inc>>
Key(w) == IF Bug = "order" THEN w ELSE IF Bug = "name" THEN [n |-> "", o |-> {}]
          ELSE [n |-> w.n, o |-> {w.o[i] : i \in 1..Len(w.o)}]
Init == /\ cache = {} /\ registry = {} /\ pc = [t \in Threads |-> "start"] /\ lock = 0 /\ want = [t \in Threads |-> <<>>]
        /\ value = [n \in Names |-> 0] /\ raised = FALSE /\ inc = [n \in Names |-> 0]
Look(t) == /\ pc[t] = "start" /\ (Bug # "nolock" => lock = 0) /\ lock' = t
           /\ \E n \in Names, o \in Orders :
                LET w == [n |-> n, o |-> o] IN
                /\ want' = [want EXCEPT ![t] = w] /\ inc' = [inc EXCEPT ![n] = @ + 1]
                /\ pc' = [pc EXCEPT ![t] = IF \E x \in cache : x.key = Key(w) THEN "count" ELSE "register"]
           /\ UNCHANGED <<cache, registry, value, raised>>
Register(t) == /\ pc[t] = "register" /\ pc' = [pc EXCEPT ![t] = "remember"]
               /\ raised' = (raised \/ want[t].n \in registry) /\ registry' = registry \cup {want[t].n}
               /\ UNCHANGED <<cache, lock, want, value, inc>>
Remember(t) == /\ pc[t] = "remember" /\ pc' = [pc EXCEPT ![t] = "count"] /\ cache' = cache \cup {[key |-> Key(want[t]), n |-> want[t].n]}
               /\ UNCHANGED <<registry, lock, want, value, raised, inc>>
Count(t) == /\ pc[t] = "count" /\ pc' = [pc EXCEPT ![t] = "end"] /\ lock' = (IF lock = t THEN 0 ELSE lock)
            /\ \E x \in cache : x.key = Key(want[t]) /\ value' = [value EXCEPT ![x.n] = @ + 1]
            /\ UNCHANGED <<cache, registry, want, raised, inc>>
Next == \E t \in Threads : Look(t) \/ Register(t) \/ Remember(t) \/ Count(t)
NeverRaises == ~raised
Exact == (\A t \in Threads : pc[t] = "end") => value = inc
=============================================================================
