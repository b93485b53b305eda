---------------------------------- MODULE Conf ----------------------------------
(* What a configuration means.  A value is [has, s, f, n]: is it there, its text,   *)
(* its text as a number with fraction ("" if it is none), and 1024 times the number. *)
EXTENDS Wire, TLC
Tt == <<116, 114, 117, 101>>  Tf == <<102, 97, 108, 115, 101>>  Tn == <<110, 111, 110, 101>>
T0 == <<48>>  T1 == <<49>>
\* texts: everything but the words for true and false leaves the default
Bool(v, default) == IF ~v.has THEN default
                    ELSE IF Lower(v.s) \in {Tf, T0, Tn} THEN FALSE ELSE IF Lower(v.s) \in {Tt, T1} THEN TRUE ELSE default
IsInt(v) == v.has /\ v.s # <<>> /\ \A i \in 1..Len(v.s) : v.s[i] \in 48..57
IntOf(s) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, s)
Num(v, default) == IF ~v.has THEN default ELSE IntOf(v.s)
IntOr(v, default) == IF IsInt(v) THEN IntOf(v.s) ELSE default
None(v) == ~v.has \/ v.s = <<78, 111, 110, 101>>
Localhost == <<108, 111, 99, 97, 108, 104, 111, 115, 116>>
Text(v, default) == IF v.has THEN v.s ELSE default

Service(g) == IF g.c.service_name.has THEN g.c.service_name.s ELSE g.service.s
HasService(g) == g.c.service_name.has \/ (g.service.has /\ g.service.s # <<>>)
Batch(g) == Num(g.c.reporter_batch_size, 10)
Queue(g) == Num(g.c.reporter_queue_size, 100)
Flush(g) == IF g.c.reporter_flush_interval.has THEN g.c.reporter_flush_interval.n ELSE 1024
Refresh(g) == IF g.c.sampling_refresh_interval.has THEN g.c.sampling_refresh_interval.n ELSE 60 * 1024
MaxOps(g) == IF None(g.c.max_operations) THEN 2000 ELSE Num(g.c.max_operations, 0)
Wide(g) == IF g.c.generate_128bit_trace_id.has THEN Bool(g.c.generate_128bit_trace_id, FALSE) ELSE g.env.JAEGER_TRACEID_128BIT.s = Tt
Host(g) == IF g.la.reporting_host.has THEN g.la.reporting_host.s ELSE Text(g.env.JAEGER_AGENT_HOST, Localhost)
Port(g) == IntOr(g.la.reporting_port, IntOr(g.env.JAEGER_AGENT_PORT, 6831))
SamplingPort(g) == IntOr(g.la.sampling_port, 5778)
ThrottlingPort(g) == IntOr(g.th.port, 5778)
ThrottlingInterval(g) == IntOr(g.th.interval, 5) * 1024
\* tags of the environment: k=v,k=v; they win over those of the configuration
EnvTags(s) == IF s = <<>> THEN <<>> ELSE
  LET kvs == Split(s, 44)
      kv(x) == LET i == CHOOSE i \in 1..Len(x) : x[i] = 61 /\ \A j \in 1..(i - 1) : x[j] # 61
               IN [k |-> Trim(SubSeq(x, 1, i - 1)), v |-> [t |-> "s", s |-> Trim(Drop(x, i))]]
  IN [i \in 1..Len(kvs) |-> kv(kvs[i])]
TagsOf(g) == LET e == EnvTags(g.env.JAEGER_TAGS.s)
             IN SelectSeq(g.tags, LAMBDA x : \A i \in 1..Len(e) : e[i].k # x.k) \o e
\* samplers: what the configuration asks for
ConstT == <<99, 111, 110, 115, 116>>
ProbT == <<112, 114, 111, 98, 97, 98, 105, 108, 105, 115, 116, 105, 99>>
RateT == <<114, 97, 116, 101, 108, 105, 109, 105, 116, 105, 110, 103>>
Rate2T == <<114, 97, 116, 101, 95, 108, 105, 109, 105, 116, 105, 110, 103>>
SamplerKind(g) == LET t == g.sa.type IN
  IF None(t) \/ t.s = <<>> THEN "remote" ELSE IF t.s = ConstT THEN "const" ELSE IF t.s = ProbT THEN "prob"
  ELSE IF t.s \in {RateT, Rate2T} THEN "rate" ELSE "unknown"
SamplerValid(g) == CASE SamplerKind(g) = "unknown" -> FALSE
                     [] SamplerKind(g) = "prob" -> g.sa.param.has /\ g.sa.param.f # "" /\ g.sa.param.n >= 0 /\ g.sa.param.n <= 1024
                     [] SamplerKind(g) = "rate" -> g.sa.param.has /\ g.sa.param.f # ""
                     [] OTHER -> TRUE
Valid(g) == HasService(g) /\ (g.validate => g.unknown = <<>>) /\ SamplerValid(g) /\ Queue(g) >= Batch(g)
=============================================================================
