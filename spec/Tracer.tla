--------------------------------- MODULE Tracer ---------------------------------
(* The design of the tracer as a state machine over the meaning TracerAbs:       *)
(* which commands an application can give, and the guarantees that follow.      *)
(* Focus selects a set of commands; Bug mutates the design.                      *)
EXTENDS TracerAbs, Json
CONSTANTS Focus, MaxSpans, MaxCtxs, Depth, One, Thr, Bug
VARIABLES m, hist, last, consulted
vars == <<m, hist, last, consulted>>
Cfg == [threads |-> 2, one |-> One, thr |-> Thr, dbghdr |-> "jaeger-debug-id"]

T(k, v) == [k |-> k, v |-> v, truthy |-> TRUE, num |-> "none"]
Prio(n) == [k |-> "sampling.priority", v |-> IF n = "one" THEN "l:1" ELSE IF n = "zero" THEN "l:0" ELSE "s:x",
            truthy |-> n # "zero", num |-> n]
Parents == {<<"s", h>> : h \in 1..Len(m.spans)} \cup {<<"c", h>> : h \in 1..Len(m.ctxs)}
Ref(t, to) == [t |-> t, to |-> to]
RefSets == CASE Focus = "parents" ->
                  {<<>>} \cup {<<Ref(t, p)>> : p \in Parents, t \in {"child", "follows"}}
                  \cup {<<Ref("child", <<>>), Ref("follows", p)>> : p \in Parents}
             [] Focus = "debug" -> {<<>>} \cup {<<Ref("child", p)>> : p \in Parents}
             [] OTHER -> {<<>>}
TagSets == CASE Focus = "parents" -> {<<>>, <<T("span.kind", "s:server")>>}
             [] Focus \in {"tags", "debug"} -> {<<>>, <<T("a", "l:1"), Prio("one"), T("b", "s:x")>>, <<T("a", "l:1"), Prio("zero"), T("b", "s:x")>>,
                                   <<T("span.kind", "s:server")>>}
             [] OTHER -> {<<>>}
Childs == IF Focus = "scopes" THEN {<<>>} ELSE {<<>>} \cup Parents
SampTags == <<T("sampler.type", "s:t"), T("sampler.param", "b:true")>>
Samps == {[yes |-> TRUE, tags |-> SampTags], [yes |-> FALSE, tags |-> <<>>]}
Thrs == IF Thr THEN {<<TRUE, TRUE>>, <<FALSE, FALSE>>, <<TRUE, FALSE>>} ELSE {<<>>}
Threads == IF Focus = "scopes" THEN 1..2 ELSE {1}
Flags2 == IF Focus = "scopes" THEN {<<a, f, i>> : a \in BOOLEAN, f \in BOOLEAN, i \in BOOLEAN}
          ELSE {<<FALSE, TRUE, FALSE>>}
Starts == {[c |-> "start", th |-> th, op |-> "o", child |-> ch, refs |-> r, tags |-> tg, st |-> <<>>,
            ign |-> f[3], act |-> f[1], foc |-> f[2], samp |-> sp, thr |-> tt] :
              th \in Threads, ch \in Childs, r \in RefSets, tg \in TagSets, f \in Flags2, sp \in Samps, tt \in Thrs}
H == 1..Len(m.spans)
Cmds ==
  (IF Len(m.spans) < MaxSpans THEN Starts ELSE {})
  \cup {[c |-> "finish", th |-> 1, s |-> h, ft |-> <<>>] : h \in H}
  \cup (IF Focus \in {"tags", "debug"} THEN
         {[c |-> "tag", th |-> 1, s |-> h, tag |-> tg, thr |-> tt] : h \in H, tg \in {T("a", "s:1"), Prio("one"), Prio("zero"), Prio("none")},
            tt \in Thrs}
         \cup {[c |-> "log", th |-> 1, s |-> h, f |-> <<<<"event", "s:e">>>>, ts |-> <<>>] : h \in H}
         \cup {[c |-> "setop", th |-> 1, s |-> h, op |-> "p"] : h \in H} ELSE {})
  \cup (IF Focus = "baggage" THEN
         {[c |-> "bag", th |-> 1, s |-> h, k |-> k, v |-> v] : h \in H, k \in {"k", "q"}, v \in {<<>>, <<"1">>, <<"2">>}}
         \cup {[c |-> "getbag", th |-> 1, s |-> h, k |-> "k"] : h \in H}
         \cup (IF Len(m.ctxs) < MaxCtxs THEN {[c |-> k, th |-> 1, s |-> h] : k \in {"capture", "carry"}, h \in H} ELSE {})
        ELSE {})
  \cup (IF Focus \in {"parents", "debug"} /\ Len(m.ctxs) < MaxCtxs THEN
         {[c |-> "mkctx", th |-> 1, dbg |-> d, bag |-> b] : d \in {"", "dbg1"}, b \in {<<>>, <<<<"k", "1">>>>}}
         \cup {[c |-> "remote", th |-> 1, fl |-> f, haspid |-> hp, bag |-> <<>>] : f \in 0..3, hp \in BOOLEAN} ELSE {})
  \cup (IF Focus = "scopes" THEN
         {[c |-> "activate", th |-> th, s |-> h, foc |-> f] : th \in 1..2, h \in H, f \in BOOLEAN}
         \cup {[c |-> "close", th |-> th] : th \in {t \in 1..2 : m.act[t] # <<>>}} ELSE {})
  \cup {[c |-> "tick", th |-> 1, n |-> 1]}
Legal(e) == e.c = "mkctx" => (e.dbg # "" \/ e.bag # <<>>)

Mutate(e, x) ==
  CASE Bug = "refinish" /\ e.c = "finish" /\ m.spans[e.s].fin -> [x EXCEPT !.m.rep = Append(@, e.s)]
    [] Bug = "sharebag" /\ e.c = "bag" ->
         [x EXCEPT !.m.spans = [h \in DOMAIN @ |-> IF @[h].tid = m.spans[e.s].tid THEN [@[h] EXCEPT !.bag = x.m.spans[e.s].bag]
                                                   ELSE @[h]]]
    [] Bug = "resample" /\ e.c = "start" ->
         [x EXCEPT !.m.spans[Len(x.m.spans)].fl = IF e.samp.yes THEN 1 ELSE 0,
                   !.sampler = <<<<x.m.spans[Len(x.m.spans)].tid, e.op>>>>]
    [] Bug = "crossthread" /\ e.c = "close" -> [x EXCEPT !.m.act = [t \in 1..2 |-> @[e.th]]]
    [] Bug = "newid" /\ e.c = "start" -> [x EXCEPT !.m.spans[Len(x.m.spans)].tid = x.m.nid + 1, !.m.nid = @ + 1]
    [] Bug = "priority" /\ e.c = "tag" /\ e.tag.num = "zero" ->
         [x EXCEPT !.m.spans[e.s].tags = Append(@, <<"sampling.priority", "l:0">>), !.m.spans[e.s].fl = Cleared(@)]
    [] OTHER -> x

Init == m = M0(Cfg) /\ hist = <<>> /\ last = [c |-> "none"] /\ consulted = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in {e \in Cmds : Legal(e)} :
             LET x == Mutate(e, Expect(m, e)) IN
             /\ m' = x.m
             /\ hist' = Append(hist, e)
             /\ last' = e
             /\ consulted' = consulted \o x.sampler
Spec == Init /\ [][Next]_vars
\* without the history for model checking
View == <<m, last.c, consulted, Len(hist)>>
Emit == Len(hist) = Depth => PrintT("@@CMD " \o ToJson(hist))

------------------------------------------------------------------------------
Spans == 1..Len(m.spans)
ReportedOnce == /\ \A i, j \in 1..Len(m.rep) : m.rep[i] = m.rep[j] => i = j
                /\ \A h \in Spans : m.spans[h].fin <=> h \in ToSet(m.rep)
                /\ m.met.fin = Len(m.rep)
FinishedHasEnd == \A h \in Spans : m.spans[h].fin <=> m.spans[h].en # <<>>
Counts == /\ m.met.ss + m.met.sn = Len(m.spans)
          /\ m.met.ts + m.met.tn + m.met.js + m.met.jn = Cardinality({h \in Spans : m.spans[h].pid = 0})
\* the sampler is asked at most once for a trace
AskedOnce == \A i, j \in 1..Len(consulted) : consulted[i][1] = consulted[j][1] => i = j
\* a parent id belongs to the same trace
Known == {<<m.spans[h].tid, m.spans[h].sid>> : h \in Spans} \cup {<<m.ctxs[h].tid, m.ctxs[h].sid>> : h \in 1..Len(m.ctxs)}
         \cup {<<m.ctxs[h].tid, m.ctxs[h].pid>> : h \in 1..Len(m.ctxs)}
ParentInTrace == \A h \in Spans : m.spans[h].pid # 0 => <<m.spans[h].tid, m.spans[h].pid>> \in Known
DistinctIds == One \/ \A h, g \in Spans : h # g => m.spans[h].sid # m.spans[g].sid
\* baggage changes only by setting it on that span, contexts never change theirs
BaggageIsolated == [][\A h \in Spans : m'.spans[h].bag # m.spans[h].bag => (last'.c = "bag" /\ last'.s = h)]_vars
CtxImmutable == [][\A h \in 1..Len(m.ctxs) : m'.ctxs[h] = m.ctxs[h]]_vars
\* identity never changes, and only sampling.priority changes the flags of a span
IdentityFixed == [][\A h \in Spans : m'.spans[h].tid = m.spans[h].tid /\ m'.spans[h].sid = m.spans[h].sid
                                     /\ m'.spans[h].pid = m.spans[h].pid
                                     /\ (m'.spans[h].fl # m.spans[h].fl => last'.c = "tag" /\ last'.s = h)]_vars
\* a span that joins a trace has the flags of its parent, unless its own tags set a priority
Inherits == [][(last'.c = "start" /\ Len(m'.spans) > Len(m.spans) /\ last'.child # <<>> /\ CtxOf(m, last'.child).tr
                /\ ~\E i \in 1..Len(last'.tags) : last'.tags[i].k = "sampling.priority")
               => m'.spans[Len(m'.spans)].fl = CtxOf(m, last'.child).fl]_vars
\* what is not sampled records nothing
UnsampledSilent == [][\A h \in Spans : ~Sampled(m'.spans[h].fl) =>
                         m'.spans[h].tags = m.spans[h].tags /\ m'.spans[h].logs = m.spans[h].logs]_vars
\* one thread does not change the active span of another one
ThreadsApart == [][\A t \in 1..2 : m'.act[t] # m.act[t] => last'.th = t]_vars
=============================================================================
