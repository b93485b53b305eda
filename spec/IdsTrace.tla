------------------------------- MODULE IdsTrace -------------------------------
(* Ids of spans that were started by one or more tracers.  Ids are sequences of      *)
(* hexadecimal digits without leading zeros.                                          *)
(*  span   trace, span: ids;  root: is it a new trace;  from: the trace id of the      *)
(*         parent;  fair: were the random numbers left as they are                     *)
(*  drawn  id: an id that an application has drawn from the tracer                    *)
(*  batch  ids: all ids of one kind that were drawn for the trace, width: in digits    *)
EXTENDS TraceLib, Integers
VARIABLES tr, l, bad, used
Cfg == Traces[tr].cfg
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ used = {}
Zero(d) == d = <<>>
BitsOf(d) == {b \in 0..3 : (d \div (2 ^ b)) % 2 = 1}
IdBad(d, digits) == (IF Zero(d) THEN {"zero"} ELSE {}) \cup (IF Len(d) > digits THEN {"width"} ELSE {})
SpanBad(e) ==
  IdBad(e.trace, IF Cfg.wide THEN 32 ELSE 16) \cup IdBad(e.span, 16)
  \cup (IF e.root = FALSE /\ e.trace # e.from THEN {"trace_kept"} ELSE {})
  \cup (IF e.fair /\ (e.span \in used \/ (e.root /\ (e.trace \in used \/ e.trace = e.span))) THEN {"fresh"} ELSE {})
  \cup (IF e.raised # "" THEN {"raised"} ELSE {})
\* digit i from the right
Digit(d, i) == IF i > Len(d) THEN 0 ELSE d[Len(d) + 1 - i]
BatchBad(e) ==
  LET N == 1..Len(e.ids) IN
  (IF \E i \in 1..e.width, b \in 0..3 : (\A n \in N : b \in BitsOf(Digit(e.ids[n], i))) \/ (\A n \in N : b \notin BitsOf(Digit(e.ids[n], i)))
   THEN {"all_bits"} ELSE {})
  \cup (IF Cardinality({e.ids[n] : n \in N}) # Len(e.ids) THEN {"fresh"} ELSE {})
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ LET e == Traces[tr].ev[l + 1] IN
            IF e.k = "drawn" THEN used' = used \cup {e.id} /\ bad' = Mark(bad, (IF e.raised # "" THEN {"raised"} ELSE {})
                                                                 \cup IdBad(e.id, 16)
                                                                 \cup (IF e.id \in used THEN {"fresh"} ELSE {}), l + 1)
            ELSE IF e.k = "batch" THEN used' = used /\ bad' = Mark(bad, BatchBad(e), l + 1)
            ELSE used' = used \cup {e.span} \cup (IF e.root THEN {e.trace} ELSE {}) /\ bad' = Mark(bad, SpanBad(e), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
