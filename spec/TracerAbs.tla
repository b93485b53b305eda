------------------------------- MODULE TracerAbs -------------------------------
(* The sequential meaning of the tracer: Expect(m, e) is the state after the    *)
(* command e in state m, given how the sampler and the throttler answered       *)
(* (e.samp, e.thr).  Step(m, e) compares what the code did (e.post and the       *)
(* calls it made) with that, field by field; differences are named clauses.     *)
(*                                                                             *)
(* m.spans   sequence of span records, by handle                               *)
(* m.ctxs    sequence of context records, by handle                            *)
(* m.act     per thread, the stack of active scopes                            *)
(* m.rep     handles of the reported spans, in order                           *)
(* m.met     counters                                                          *)
(* m.nid     number of ids seen so far (ids are numbered by first appearance)  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Bit0(f) == f % 2
Bit1(f) == (f \div 2) % 2
Sampled(f) == Bit0(f) = 1
Debug(f) == Bit1(f) = 1
WithDebug(f) == f + (1 - Bit0(f)) + 2 * (1 - Bit1(f))
Cleared(f) == f - Bit0(f) - 2 * Bit1(f)
ToSet(s) == {s[i] : i \in 1..Len(s)}

Met0 == [ss |-> 0, sn |-> 0, ts |-> 0, tn |-> 0, js |-> 0, jn |-> 0, fin |-> 0]
M0(cfg) == [cfg |-> cfg, spans |-> <<>>, ctxs |-> <<>>, act |-> [t \in 1..cfg.threads |-> <<>>],
            rep |-> <<>>, met |-> Met0, nid |-> 0, now |-> 0]

\* contexts ------------------------------------------------------------------
\* a parent or reference target is <<>> or <<kind, handle>>
NoCtx == [tid |-> 0, sid |-> 0, pid |-> 0, fl |-> 0, bag |-> {}, dbg |-> "", tr |-> FALSE]
SpanCtx(s) == [tid |-> s.tid, sid |-> s.sid, pid |-> s.pid, fl |-> s.fl, bag |-> s.bag, dbg |-> "", tr |-> TRUE]
CtxOf(m, x) == IF x[1] = "s" THEN SpanCtx(m.spans[x[2]]) ELSE m.ctxs[x[2]]

\* tags ------------------------------------------------------------------------
\* acc: [fl, tags, thr] while the tags are applied one after the other
TagStep(acc, tg) ==
  LET rec(a) == IF Sampled(a.fl) THEN [a EXCEPT !.tags = Append(@, <<tg.k, tg.v>>)] ELSE a IN
  IF tg.k # "sampling.priority" THEN rec(acc)
  ELSE IF Debug(acc.fl) /\ tg.truthy THEN acc
  ELSE IF tg.num = "none" THEN acc
  ELSE IF tg.num = "zero" THEN [acc EXCEPT !.fl = Cleared(@)]
  ELSE \* asks the throttler, if there is one
       LET a == [acc EXCEPT !.asked = @ + 1]
           allowed == IF acc.asked + 1 <= Len(acc.thr) THEN acc.thr[acc.asked + 1] ELSE TRUE
       IN IF allowed THEN rec([a EXCEPT !.fl = WithDebug(@)]) ELSE a
RECURSIVE TagFold(_, _)
TagFold(acc, tags) == IF tags = <<>> THEN acc ELSE TagFold(TagStep(acc, Head(tags)), Tail(tags))

\* python's dict.update: a key keeps its place
SetKey(tags, tg) ==
  IF \E i \in 1..Len(tags) : tags[i].k = tg.k
  THEN [i \in 1..Len(tags) |-> IF tags[i].k = tg.k THEN tg ELSE tags[i]]
  ELSE Append(tags, tg)
RECURSIVE SetKeys(_, _)
SetKeys(tags, more) == IF more = <<>> THEN tags ELSE SetKeys(SetKey(tags, Head(more)), Tail(more))

\* start -------------------------------------------------------------------------
ActiveOf(m, th) == LET st == m.act[th] IN IF st = <<>> THEN 0 ELSE st[Len(st)].s

Start(m, e) ==
  LET act == ActiveOf(m, e.th)
      p0 == IF e.child # <<>> THEN CtxOf(m, e.child)
            ELSE IF act # 0 /\ ~e.ign THEN SpanCtx(m.spans[act]) ELSE NoCtx
      valid == SelectSeq(e.refs, LAMBDA r : r.to # <<>>)
      p == IF valid # <<>> /\ ~p0.tr THEN CtxOf(m, valid[1].to) ELSE p0
      rpc == \E i \in 1..Len(e.tags) : e.tags[i].k = "span.kind" /\ e.tags[i].v = "s:server"
      root == ~p.tr
      askSampler == root /\ p.dbg = ""
      askDebug == root /\ p.dbg # ""
      yes == askSampler /\ e.samp.yes
      dallow == IF m.cfg.thr /\ Len(e.thr) >= 1 THEN e.thr[1] ELSE TRUE
      fl0 == IF ~root THEN p.fl ELSE IF askSampler THEN (IF yes THEN 1 ELSE 0) ELSE (IF dallow THEN 3 ELSE 0)
      tags0 == IF yes THEN SetKeys(e.tags, e.samp.tags)
               ELSE IF askDebug /\ dallow THEN SetKeys(e.tags, <<[k |-> m.cfg.dbghdr, v |-> "s:" \o p.dbg,
                                                                 truthy |-> TRUE, num |-> "none"]>>)
               ELSE e.tags
      acc == TagFold([fl |-> fl0, tags |-> <<>>, thr |-> IF m.cfg.thr THEN e.thr ELSE <<>>, asked |-> IF askDebug THEN 1 ELSE 0], tags0)
      share == ~root /\ rpc /\ m.cfg.one
      tid == IF root THEN m.nid + 1 ELSE p.tid
      sid == IF share THEN p.sid ELSE IF root THEN m.nid + 2 ELSE m.nid + 1
      pid == IF root THEN 0 ELSE IF share THEN p.pid ELSE p.sid
      s == [tid |-> tid, sid |-> sid, pid |-> pid, fl |-> acc.fl, bag |-> p.bag, op |-> e.op, tags |-> acc.tags,
            logs |-> <<>>, st |-> IF e.st = <<>> THEN m.now ELSE e.st[1], en |-> <<>>, fin |-> FALSE,
            refs |-> [i \in 1..Len(valid) |->
                        LET c == CtxOf(m, valid[i].to) IN <<valid[i].t, c.tid, c.sid, c.tr>>]]
      y == Sampled(acc.fl)
      met1 == IF y THEN [m.met EXCEPT !.ss = @ + 1] ELSE [m.met EXCEPT !.sn = @ + 1]
      met2 == IF pid # 0 THEN met1
              ELSE IF y THEN (IF rpc THEN [met1 EXCEPT !.js = @ + 1] ELSE [met1 EXCEPT !.ts = @ + 1])
              ELSE (IF rpc THEN [met1 EXCEPT !.jn = @ + 1] ELSE [met1 EXCEPT !.tn = @ + 1])
      h == Len(m.spans) + 1
  IN [m |-> [m EXCEPT !.spans = Append(@, s), !.met = met2,
                      !.nid = IF root THEN @ + 2 ELSE IF share THEN @ ELSE @ + 1,
                      !.act = IF e.act THEN [@ EXCEPT ![e.th] = Append(@, [s |-> h, foc |-> e.foc])] ELSE @],
      sampler |-> IF askSampler THEN <<<<tid, e.op>>>> ELSE <<>>,
      asked |-> IF m.cfg.thr THEN acc.asked ELSE 0,
      res |-> "none"]

\* the other commands --------------------------------------------------------------
Just(m) == [m |-> m, sampler |-> <<>>, asked |-> 0, res |-> "none"]

FinishOf(m, h, ft) ==
  LET s == m.spans[h] IN
  IF ~Sampled(s.fl) \/ s.fin THEN m
  ELSE [m EXCEPT !.spans[h].fin = TRUE, !.spans[h].en = IF ft = <<>> THEN <<m.now>> ELSE ft,
                 !.rep = Append(@, h), !.met.fin = @ + 1]

SetTag(m, e) ==
  LET s == m.spans[e.s]
      acc == TagStep([fl |-> s.fl, tags |-> s.tags, thr |-> IF m.cfg.thr THEN e.thr ELSE <<>>, asked |-> 0], e.tag)
  IN [Just([m EXCEPT !.spans[e.s].fl = acc.fl, !.spans[e.s].tags = acc.tags])
      EXCEPT !.asked = IF m.cfg.thr THEN acc.asked ELSE 0]

LogTo(m, h, fields, ts) ==
  IF Sampled(m.spans[h].fl)
  THEN [m EXCEPT !.spans[h].logs = Append(@, [t |-> IF ts = <<>> THEN m.now ELSE ts[1], f |-> fields])]
  ELSE m

BagOf(bag, k) == IF \E p \in bag : p[1] = k THEN (CHOOSE p \in bag : p[1] = k)[2] ELSE ""
SetBag(m, e) ==
  LET s == m.spans[e.s]
      had == \E p \in s.bag : p[1] = e.k
      prev == BagOf(s.bag, e.k)
      rest == {p \in s.bag : p[1] # e.k}
      bag == IF e.v = <<>> THEN rest ELSE rest \cup {<<e.k, e.v[1]>>}
      txt == IF e.v = <<>> THEN "None" ELSE e.v[1]
      fields == <<<<"event", "s:baggage">>, <<"key", "s:" \o e.k>>, <<"value", "s:" \o txt>>>>
                \o (IF had /\ prev # "" THEN <<<<"override", "s:true">>>> ELSE <<>>)
  IN LogTo([m EXCEPT !.spans[e.s].bag = bag], e.s, fields, <<>>)

Expect(m, e) ==
  CASE e.c = "start"    -> Start(m, e)
    [] e.c = "finish"   -> Just(FinishOf(m, e.s, e.ft))
    [] e.c = "tag"      -> SetTag(m, e)
    [] e.c = "log"      -> Just(LogTo(m, e.s, e.f, e.ts))
    [] e.c = "error"    -> \* the deprecated Span.error: a tag and a log
         Just(LogTo([m EXCEPT !.spans[e.s].tags = IF Sampled(m.spans[e.s].fl) THEN Append(@, <<"error", "b:true">>) ELSE @],
                    e.s, e.f, <<>>))
    [] e.c = "setop"    -> Just([m EXCEPT !.spans[e.s].op = e.op])
    [] e.c = "bag"      -> Just(SetBag(m, e))
    [] e.c = "getbag"   -> [Just(m) EXCEPT !.res = IF \E p \in m.spans[e.s].bag : p[1] = e.k
                                                   THEN "v:" \o BagOf(m.spans[e.s].bag, e.k) ELSE "absent"]
    [] e.c = "isrpc"    -> \* the first span.kind tag decides
         LET k == SelectSeq(m.spans[e.s].tags, LAMBDA x : x[1] = "span.kind")
         IN [Just(m) EXCEPT !.res = IF k = <<>> THEN "FF"
                                    ELSE (IF k[1][2] \in {"s:client", "s:server"} THEN "T" ELSE "F")
                                         \o (IF k[1][2] = "s:client" THEN "T" ELSE "F")]
    [] e.c = "capture"  -> Just([m EXCEPT !.ctxs = Append(@, SpanCtx(m.spans[e.s]))])
    [] e.c = "carry"    -> \* inject into a carrier and extract again
         Just([m EXCEPT !.ctxs = Append(@, SpanCtx(m.spans[e.s]))])
    [] e.c = "mkctx"    -> \* a carrier without a trace: debug id and baggage only
         Just([m EXCEPT !.ctxs = Append(@, [NoCtx EXCEPT !.dbg = e.dbg, !.bag = ToSet(e.bag)])])
    [] e.c = "remote"   -> \* a trace that another process started
         Just([m EXCEPT !.ctxs = Append(@, [tid |-> m.nid + 1, sid |-> m.nid + 2, pid |-> IF e.haspid THEN m.nid + 3 ELSE 0,
                                            fl |-> e.fl, bag |-> ToSet(e.bag), dbg |-> "", tr |-> TRUE]),
                        !.nid = IF e.haspid THEN @ + 3 ELSE @ + 2])
    [] e.c = "activate" -> Just([m EXCEPT !.act[e.th] = Append(@, [s |-> e.s, foc |-> e.foc])])
    [] e.c = "close"    -> \* closes the innermost scope of the thread
         LET st == m.act[e.th]
             top == st[Len(st)]
             x == IF top.foc THEN FinishOf(m, top.s, <<>>) ELSE m
         IN Just([x EXCEPT !.act[e.th] = SubSeq(st, 1, Len(st) - 1)])
    [] e.c = "tick"     -> Just([m EXCEPT !.now = @ + e.n])

\* comparison ------------------------------------------------------------------------
SpanFields == {"tid", "sid", "pid", "fl", "bag", "op", "tags", "logs", "st", "en", "fin", "refs"}
Norm(o) == [o EXCEPT !.bag = ToSet(@)]
Target(m, e) == IF e.c = "start" THEN Len(m.spans) + 1
                ELSE IF e.c = "close" THEN ActiveOf(m, e.th)
                ELSE IF e.c \in {"tick", "mkctx", "remote"} THEN 0 ELSE e.s

Diff(m, x, e) ==
  LET obs == [i \in 1..Len(e.post.spans) |-> Norm(e.post.spans[i])]
      octx == [i \in 1..Len(e.post.ctxs) |-> Norm(e.post.ctxs[i])]
      t == Target(m, e)
      pre(h) == IF h = t THEN (IF e.c = "start" THEN "new_" ELSE "own_") ELSE "other_"
      n == Len(x.m.spans)
      nc == Len(x.m.ctxs)
  IN UNION {
       IF Len(obs) # n THEN {"spans"} ELSE
         UNION {{pre(h) \o f : f \in {f \in SpanFields : obs[h][f] # x.m.spans[h][f]}} : h \in 1..n},
       IF Len(octx) # nc THEN {"ctxs"} ELSE
         UNION {{"ctx_" \o f : f \in {f \in {"tid", "sid", "pid", "bag", "dbg", "tr"} :
                                        octx[h][f] # x.m.ctxs[h][f]}} : h \in 1..nc}
         \cup (IF \A h \in 1..nc : octx[h].fl = x.m.ctxs[h].fl
                   \* the context object of a span shows what sampling.priority did to the span
                   \/ (e.c = "tag" /\ octx[h].sid = m.spans[e.s].sid /\ octx[h].fl = x.m.spans[e.s].fl)
               THEN {} ELSE {"ctx_fl"}),
       IF e.post.rep = x.m.rep THEN {} ELSE {"reported"},
       {"met_" \o k : k \in {k \in DOMAIN Met0 : e.post.met[k] # x.m.met[k]}},
       IF e.post.act = [th \in 1..m.cfg.threads |-> ActiveOf(x.m, th)] THEN {} ELSE {"active"},
       IF e.sampcalls = x.sampler THEN {} ELSE {"sampler_calls"},
       IF Len(e.asked) = x.asked THEN {} ELSE {"throttler_calls"},
       IF \A i \in 1..Len(e.asked) : e.asked[i] = IF e.c = "start" THEN e.op ELSE m.spans[e.s].op
       THEN {} ELSE {"throttler_op"},
       IF e.res = x.res THEN {} ELSE {"result"},
       IF e.exc = "" THEN {} ELSE {"raised"},
       IF e.idsok THEN {} ELSE {"bad_id"} }

\* the observed state is what the next event is judged against
Adopt(m, x, e) ==
  LET obs == [i \in 1..Len(e.post.spans) |-> Norm(e.post.spans[i])]
      octx == [i \in 1..Len(e.post.ctxs) |-> Norm(e.post.ctxs[i])]
  IN [x.m EXCEPT !.spans = obs, !.ctxs = octx, !.rep = e.post.rep, !.met = e.post.met, !.nid = e.post.nid]
Step(m, e) == LET x == Expect(m, e) IN [m |-> Adopt(m, x, e), bad |-> Diff(m, x, e)]
=============================================================================
