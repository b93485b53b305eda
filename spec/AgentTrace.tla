------------------------------- MODULE AgentTrace -------------------------------
(* Recorded use of the channel to the agent.  buf: what was written since the last   *)
(* flush.                                                                            *)
EXTENDS Agent, TraceLib
VARIABLES tr, l, buf, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ buf = <<>>
If(c, x) == IF c THEN {x} ELSE {}
ReqBad(e, host, port, path, args) ==
  If(e.err # "", "request_failed") \cup
  (IF Len(e.reqs) # 1 THEN {"requests"} ELSE LET r == e.reqs[1] IN
   If(r.scheme # "http" \/ r.method # "GET", "method") \cup If(r.host # host \/ r.port # port, "address") \cup If(r.path # path, "path")
   \cup If(~SameArgs(Query(r.query), args), "query") \cup If(r.timeout # e.timeout, "timeout"))
EvBad(g, e) ==
  CASE e.k = "sampling" -> ReqBad(e, g.host, g.sampling_port, SamplingPath, SamplingArgs(e.service))
    [] e.k = "credits" -> ReqBad(e, g.host, g.throttling_port, CreditsPath, CreditsArgs(e.service, e.uuid, e.ops))
    [] e.k = "app" -> If(e.timeout # 20, "application_timeout")
    [] e.k = "made" -> If(e.sockets # <<[family |-> g.family, type |-> "dgram", blocking |-> FALSE]>>, "socket")
    [] e.k = "flush" -> If(e.grams # <<[data |-> buf, host |-> g.host, port |-> g.reporting_port]>>, "datagram")
                        \cup If(e.fail, "send_error")
    [] e.k = "flush_failed" -> If(~e.fail, "send_error")
    [] e.k \in {"write", "discard"} -> If(e.grams # <<>>, "early_datagram") \cup If(e.err # "", "error")
    [] e.k = "close" -> If(e.open \/ ~e.closed, "close") \cup If(e.grams # <<>>, "early_datagram") \cup If(e.err # "", "error")
    [] e.k = "open" -> If(~e.open, "not_open")
    [] OTHER -> {e.k}
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ \E e \in {Traces[tr].ev[l + 1]}, g \in {Traces[tr].cfg} :
              /\ buf' = (CASE e.k = "write" -> buf \o e.data [] e.k \in {"flush", "flush_failed", "discard"} -> <<>> [] OTHER -> buf)
              /\ bad' = Mark(bad, EvBad(g, e), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
