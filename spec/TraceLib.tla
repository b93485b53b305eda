-------------------------------- MODULE TraceLib --------------------------------
(* Common operators of the trace specifications.                                *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
\* the recorded traces, and the clauses that the property under check is about
Traces == JsonDeserialize(IOEnv.TRACES)
Clauses == LET c == JsonDeserialize(IOEnv.CLAUSES) IN {c[i] : i \in 1..Len(c)}
Relevant(bad) == IF Clauses = {} THEN bad ELSE bad \cap Clauses
Mark(old, bad, at) == old \cup {<<c, at>> : c \in Relevant(bad)}
MinOf(N) == CHOOSE n \in N : \A j \in N : n <= j
=============================================================================
