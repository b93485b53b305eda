------------------------------- MODULE CrossTrace -------------------------------
(* Recorded messages, generated traces and addresses.                               *)
EXTENDS Cross, TraceLib
VARIABLES tr, l, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
If(c, x) == IF c THEN {x} ELSE {}
SamplingPath == <<47, 115, 97, 109, 112, 108, 105, 110, 103>>
CreditsPath == <<47, 99, 114, 101, 100, 105, 116, 115>>
\* the tags of the application
Own(ts) == {t \in {ts[i] : i \in 1..Len(ts)} : ~StartsWith(t.k, <<115, 97, 109, 112, 108, 101, 114, 46>>)}
EvBad(e) ==
  If(e.err # "", "raised") \cup
  CASE e.err # "" -> {}
    [] e.k = "message" -> If(Plain_(e.json) # (IF e.join THEN Request(e.obj) ELSE Json_(e.obj)), "json") \cup If(Plain_(e.back) # Plain_(e.obj), "round_trip")
    [] e.k = "traces" -> If(Len(e.spans) # e.count, "count")
                         \cup If(\E i \in 1..Len(e.spans) : e.spans[i].op # e.op \/ ~e.spans[i].finished \/ ~e.spans[i].sampled, "span")
                         \cup If(\E i \in 1..Len(e.spans) : \E j \in 1..Len(e.tags) :
                                   Cardinality({m \in 1..Len(e.spans[i].tags) : e.spans[i].tags[m] = e.tags[j]}) # 1, "tags")
                         \cup If(Cardinality({e.spans[i].id : i \in 1..Len(e.spans)}) # Len(e.spans), "same_span")
                         \cup If(e.answered # 1, "answered") \cup If(e.others # 0, "wrong_tracer")
    [] e.k = "address" -> If([host |-> e.host, port |-> e.port] # Address(e.env), "address")
    [] e.k = "service" ->     \* every requested span arrives once at the agent, which is asked for strategies
         LET a == Address(e.env)
             got == [i \in 1..Len(e.got) |-> [op |-> e.got[i].op, tags |-> Own(e.got[i].tags)]]
             want == [i \in 1..Len(e.want) |-> [op |-> e.want[i].op, tags |-> Own(e.want[i].tags)]]
             Count(x) == FoldLeft(LAMBDA n, i : n + (IF want[i] = x THEN e.want[i].count ELSE 0), 0, [i \in 1..Len(want) |-> i])
         IN If(\E x \in {got[i] : i \in 1..Len(got)} \cup {want[i] : i \in 1..Len(want)} :
                 Cardinality({i \in 1..Len(got) : got[i] = x}) # Count(x), "delivered")
            \cup If(\E i \in 1..Len(e.got) : e.got[i].host # a.host \/ e.got[i].port # a.port, "agent")
            \cup If(\E i \in 1..Len(e.polls) : e.polls[i].host # a.host \/ e.polls[i].port # 5778, "agent")
            \cup If({i \in 1..Len(e.polls) : e.polls[i].path = SamplingPath} = {}, "strategies")
            \cup If({e.debug[i] : i \in 1..Len(e.debug)} # {FALSE} \/ {i \in 1..Len(e.polls) : e.polls[i].path = CreditsPath} = {}, "credits")
    [] OTHER -> {e.k}
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr /\ bad' = Mark(bad, EvBad(Traces[tr].ev[l + 1]), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
