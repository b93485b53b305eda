--------------------------------- MODULE Wire ---------------------------------
(* What the agent has to receive for a span that the application made.          *)
(*  value  [t, ...]: "b" boolean v; "i" integer neg, mag (hexadecimal), s (its   *)
(*         decimal text); "f" double bits; "s" text s; "tb" traceback text s      *)
(*  wire tag [k, t, has, s, bits, b, neg, mag]: type, fields present, values      *)
(*  times  [sec, us]                                                              *)
EXTENDS StrLib, Integers
T_STRING == 0
T_DOUBLE == 1
T_BOOL == 2
T_LONG == 3
Fits(v) == Len(v.mag) < 16 \/ (Len(v.mag) = 16 /\ (v.mag[1] < 8 \/ (v.neg /\ v.mag = <<8>> \o Zeros(15))))
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
TagOk(cfg, k, v, w) ==
  /\ w.k = k
  /\ CASE v.t = "b" -> w.t = T_BOOL /\ w.has = <<"vBool">> /\ w.b = v.v
       [] v.t = "i" /\ Fits(v) -> w.t = T_LONG /\ w.has = <<"vLong">> /\ w.neg = v.neg /\ w.mag = v.mag
       [] v.t = "i" /\ ~Fits(v) -> w.t = T_STRING /\ w.has = <<"vStr">> /\ w.s = Cut(v.s, cfg.max)
       [] v.t = "f" -> w.t = T_DOUBLE /\ w.has = <<"vDouble">> /\ w.bits = v.bits
       [] v.t = "s" -> w.t = T_STRING /\ w.has = <<"vStr">> /\ w.s = Cut(v.s, cfg.max)
       [] v.t = "tb" -> w.t = T_STRING /\ w.has = <<"vStr">> /\ w.s = Cut(v.s, cfg.maxtb)
TagsOk(cfg, a, w) == Len(a) = Len(w) /\ \A i \in 1..Len(a) : TagOk(cfg, a[i].k, a[i].v, w[i])
\* within a microsecond: binary fractions of a second are rounded
Near(s1, u1, s2, u2) == /\ s1 - s2 \in -1..1
                        /\ (s1 - s2) * 1000000 + (u1 - u2) \in -1..1
TimeOk(a, w) == Near(a.sec, a.us, w.sec, w.us)
DurOk(st, en, w) == LET d == IF en.us >= st.us THEN [sec |-> en.sec - st.sec, us |-> en.us - st.us]
                             ELSE [sec |-> en.sec - st.sec - 1, us |-> en.us - st.us + 1000000]
                    IN Near(d.sec, d.us, w.sec, w.us)
Low(d) == Strip0(Pad(d, 16))
High(d) == IF Len(d) <= 16 THEN <<>> ELSE Strip0(SubSeq(d, 1, Len(d) - 16))
RefsOk(a, w) == LET r == SelectSeq(a, LAMBDA x : x.has) IN
  Len(r) = Len(w) /\ \A i \in 1..Len(r) : w[i] = [t |-> IF r[i].t = "follows_from" THEN 1 ELSE 0,
                                                   lo |-> Low(r[i].tid), hi |-> High(r[i].tid), sid |-> r[i].sid]
SpanBad(cfg, a, w) ==
  (IF <<w.lo, w.hi, w.sid, w.pid>> # <<Low(a.tid), High(a.tid), a.sid, a.pid>> THEN {"wire_ids"} ELSE {}) \cup
  (IF w.op # a.op THEN {"wire_op"} ELSE {}) \cup
  (IF w.fl # a.fl THEN {"wire_flags"} ELSE {}) \cup
  (IF ~TimeOk(a.st, w.st) THEN {"wire_start"} ELSE {}) \cup
  (IF ~DurOk(a.st, a.en, w.dur) THEN {"wire_duration"} ELSE {}) \cup
  (IF ~TagsOk(cfg, a.tags, w.tags) THEN {"wire_tags"} ELSE {}) \cup
  (IF ~(Len(a.logs) = Len(w.logs) /\ \A i \in 1..Len(a.logs) : TimeOk(a.logs[i].ts, w.logs[i].ts))
   THEN {"wire_logs"} ELSE
   IF \E i \in 1..Len(a.logs) : ~TagsOk(cfg, a.logs[i].f, w.logs[i].f) THEN {"wire_fields"} ELSE {}) \cup
  (IF ~RefsOk(a.refs, w.refs) THEN {"wire_refs"} ELSE {})
\* the process: the tags of the tracer, and those that it adds itself
ProcessBad(cfg, w) ==
  LET own == {cfg.tags[i].k : i \in 1..Len(cfg.tags)}
      got == {w.tags[i].k : i \in 1..Len(w.tags)}
      need == {cfg.added[i] : i \in 1..Len(cfg.added)}
  IN (IF w.service # cfg.service THEN {"wire_service"} ELSE {}) \cup
     (IF got # own \cup need \/ Len(w.tags) # Cardinality(got) THEN {"wire_process"} ELSE {}) \cup
     (IF \E i \in 1..Len(cfg.tags) : ~\E j \in 1..Len(w.tags) :
           w.tags[j].k = cfg.tags[i].k /\ TagOk([max |-> cfg.max, maxtb |-> 4096], cfg.tags[i].k, cfg.tags[i].v, w.tags[j])
      THEN {"wire_process"} ELSE {})
BatchBad(cfg, e) ==
  IF e.wire.st # "ok" THEN {"wire_malformed"}
  ELSE ProcessBad(e.proc, e.wire.process) \cup
       (IF Len(e.wire.spans) # Len(e.spans) THEN {"wire_spans"}
        ELSE UNION {SpanBad(cfg, e.spans[i], e.wire.spans[i]) : i \in 1..Len(e.spans)})
=============================================================================
