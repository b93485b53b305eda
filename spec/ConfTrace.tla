------------------------------- MODULE ConfTrace -------------------------------
(* Tracers that were built from a configuration, as seen from outside.              *)
EXTENDS Conf, TraceLib
VARIABLES tr, l, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
If(c, x) == IF c THEN {x} ELSE {}
\* the sampler: asked with the smallest and the largest trace id, limiters are full
AskedBad(g, a) ==
  LET yes == {i \in 1..Len(a) : a[i].yes}
      p == g.sa.param
  IN CASE SamplerKind(g) = "const" -> If((yes # {}) # Bool(p, FALSE) \/ yes \notin {{}, 1..Len(a)} \/ \E i \in yes : a[i].type # "const", "sampler")
       [] SamplerKind(g) = "prob" -> If(yes # {i \in 1..Len(a) : IF i % 2 = 1 THEN p.n > 0 ELSE p.n = 1024}
                                        \/ \E i \in yes : a[i].type # "probabilistic" \/ a[i].param # p.f, "sampler")
       [] SamplerKind(g) = "rate" -> LET n == IF p.n < 1024 THEN 1 ELSE p.n \div 1024 IN
                                     If(Cardinality(yes) # (IF n > Len(a) THEN Len(a) ELSE n)
                                        \/ \E i \in yes : a[i].type # "ratelimiting" \/ a[i].param # p.f, "sampler")
       [] OTHER -> If(yes # {1, 3, 5} \/ \E i \in yes : a[i].type # "probabilistic" \/ a[i].param # "0.001", "sampler")
Gaps(ts, d) == \A i \in 1..(Len(ts) - 1) : ts[i + 1] - ts[i] = d
PollsBad(g, ps) ==
  IF SamplerKind(g) # "remote" THEN If(ps # <<>>, "polls")
  ELSE If(Len(ps) < 2, "polls") \cup If(\E i \in 1..Len(ps) : ps[i].host # Host(g) \/ ps[i].port # SamplingPort(g), "sampling_address")
       \cup If(ps # <<>> /\ (ps[1].t > Refresh(g) \/ ~Gaps([i \in 1..Len(ps) |-> ps[i].t], Refresh(g))), "sampling_interval")
CreditsBad(g, ps) ==
  IF ~g.th.has THEN If(ps # <<>>, "credits")
  ELSE If(Len(ps) < 2, "credits") \cup If(\E i \in 1..Len(ps) : ps[i].host # Host(g) \/ ps[i].port # ThrottlingPort(g), "throttling_address")
       \cup If(~Gaps([i \in 1..Len(ps) |-> ps[i].t], ThrottlingInterval(g)), "throttling_interval")
Mn2(a, b) == IF a < b THEN a ELSE b
B3(g) == g.c.propagation.has /\ g.c.propagation.s = <<98, 51>>
Keys(a) == {a[i] : i \in 1..Len(a)}
KeyT == <<107, 101, 121>>
HeaderNames(g) == {Normal(Text(g.c.trace_id_header, <<117, 98, 101, 114, 45, 116, 114, 97, 99, 101, 45, 105, 100>>)),
                   Normal(Text(g.c.baggage_header_prefix, <<117, 98, 101, 114, 99, 116, 120, 45>>)) \o KeyT}
MaxTag(g) == Num(g.c.max_tag_value_length, 1024)
MaxTb(g) == Num(g.c.max_traceback_length, 4096)
ProcBad(g, w) == ProcessBad([tags |-> TagsOf(g), max |-> MaxTag(g), service |-> Service(g), maxtb |-> 4096,
                             added |-> <<<<106, 97, 101, 103, 101, 114, 46, 118, 101, 114, 115, 105, 111, 110>>,      \* jaeger.version
                                         <<105, 112>>, <<104, 111, 115, 116, 110, 97, 109, 101>>>>
                                       \o (IF g.th.has THEN <<<<99, 108, 105, 101, 110, 116, 45, 117, 117, 105, 100>>>> ELSE <<>>)], w)
BuildBad(g, e) ==
  If(~e.kept, "config_kept") \cup
  (IF e.raised # "" THEN If(Valid(g), "raised") \cup If(SamplerValid(g) /\ e.raised # "ValueError", "exception")
   ELSE IF ~Valid(g) THEN {"accepted"}
   ELSE If(e.service_prop # Service(g), "service")
     \cup If(e.enabled # Bool(g.c.enabled, TRUE), "enabled") \cup If(e.la_enabled # Bool(g.la.enabled, TRUE), "agent_enabled")
     \cup If(~e.scope, "scope_manager") \cup If(e.wide # Wide(g), "wide")
     \cup If(Keys(e.text) # HeaderNames(g), "headers")
     \cup If(IF B3(g) THEN ~e.b3 ELSE Keys(e.http) # HeaderNames(g), "propagation")
     \cup If(e.b3_digits # (IF ~B3(g) THEN 0 ELSE IF Wide(g) THEN 32 ELSE 16), "b3_width")
     \cup If(e.errors # (IF SamplerKind(g) = "remote" /\ Bool(g.c.logging, FALSE) THEN 1 ELSE 0), "errors_logged")
     \cup AskedBad(g, e.asked) \cup PollsBad(g, e.polls)
     \cup If(SamplerKind(g) = "remote" /\ e.maxops # MaxOps(g), "max_operations")
     \cup If(~e.debug, "debug_header") \cup If(e.debug /\ e.debug_sampled = g.th.has, "throttled")
     \cup CreditsBad(g, e.credits)
     \cup If(e.debug /\ Len(e.credits) \notin {1, 2}
             /\ e.thr # (IF g.th.has /\ Bool(g.c.metrics, TRUE) THEN <<1, 1, 2>> ELSE <<0, 0, 0>>), "throttler_metrics")
     \cup If(Len(e.polls) > 1 /\ (e.queries # <<0, 0>>) # Bool(g.c.metrics, TRUE), "sampler_metrics")
     \cup If(Batch(g) > 1 /\ (e.flush < 0 \/ e.flush > Flush(g) + 128 \/ 2 * e.flush < Flush(g)), "flush")
     \cup If(Batch(g) = 1 /\ e.flush # 0, "flush")
     \cup If(e.peer # <<Host(g), Port(g)>>, "address")
     \cup ProcBad(g, e.process)
     \cup If(e.tag # Mn2(5000, MaxTag(g)), "tag_length") \cup If(e.tb # Mn2(e.fulltb, MaxTb(g)), "traceback_length")
     \cup If(e.logged # (IF Bool(g.c.logging, FALSE) THEN 1 ELSE 0), "logging")
     \cup If(e.counted # Bool(g.c.metrics, TRUE), "metrics")
     \cup If(e.first # Mn2(Batch(g), e.sent), "batch_size") \cup If(e.sent \notin {Mn2(260, Queue(g)), Mn2(260, Queue(g) + 1)}, "queue_size")
     \cup If(e.errs # <<>>, "loop_error"))
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ bad' = Mark(bad, BuildBad(Traces[tr].cfg, Traces[tr].ev[l + 1]), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
