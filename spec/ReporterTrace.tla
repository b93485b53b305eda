----------------------------- MODULE ReporterTrace -----------------------------
(* Validation of recorded traces against the monitor ReporterAbs.  S is the set *)
(* of abstract states that can explain the events so far; explanations that     *)
(* break more clauses (first of those the property under check is about, then   *)
(* of all) than another one are given up: a trace conforms iff bad stays empty. *)
(* (The singleton bindings make TLC evaluate each set once.)                    *)
EXTENDS ReporterAbs, TraceLib
VARIABLES tr, l, S
TInit == /\ tr \in 1..Len(Traces)
         /\ l = 0
         /\ S = {[m |-> M0(Traces[tr].cfg.Q, Traces[tr].cfg.B, Traces[tr].cfg.F), bad |-> {}, all |-> 0]}
TNext == /\ l < Len(Traces[tr].ev)
         /\ l' = l + 1
         /\ tr' = tr
         /\ \E X \in {UNION {{[m |-> o.m, bad |-> Mark(s.bad, o.bad, l + 1),
                               all |-> s.all + Cardinality(o.bad)] : o \in Step(s.m, Traces[tr].ev[l + 1])}
                              : s \in S}} :
               \E n \in {MinOf({Cardinality(x.bad) : x \in X})} :
               \E A \in {{x \in X : Cardinality(x.bad) = n}} :
               \E k \in {MinOf({x.all : x \in A})} :
                  S' = {x \in A : x.all = k}
TEnd == l = Len(Traces[tr].ev) =>
          PrintT("@@END " \o ToJson([tr |-> tr, bad |-> (CHOOSE s \in S : TRUE).bad]))
=============================================================================
