-------------------------------- MODULE Codec --------------------------------
(* The carriers of trace contexts: what inject has to write and what extract    *)
(* has to make of any carrier.                                                  *)
(*   ctx     [tid, sid, pid, fl, bag]: hexadecimal digits, flags, set of <<k,v>> *)
(*   carrier text, http, b3: sequence of [k, v, t] in order, t the type of the  *)
(*           value ("s" string, "l" list of one string, "n" None, "x" other);   *)
(*           binary: bytes; zipkin: [tid, sid, pid, fl]                          *)
(*   cfg     [tname, prefix, dname, bname, wide, one]                            *)
EXTENDS StrLib
COLON == 58
COMMA == 44
EQ == 61
NoTrace == [tid |-> <<>>, sid |-> <<>>, pid |-> <<>>, fl |-> 0]
Put(bag, k, v) == {q \in bag : q[1] # k} \cup {<<k, v>>}
FitsId(d) == Len(d) <= 16
FitsTrace(d) == Len(d) <= 32

\* the value of the trace header: [st |-> ok / bad / odd, ...]
ParseTrace(s) ==
  LET p == Split(s, COLON)
      h == [i \in 1..Len(p) |-> ParseHex(p[i])]
  IN IF Len(p) # 4 THEN [st |-> "bad"]
     ELSE IF \E i \in 1..4 : h[i].st = "bad" THEN [st |-> "bad"]
     ELSE IF \E i \in 1..4 : h[i].st = "odd" THEN [st |-> "odd"]
     ELSE IF h[1].d = <<>> \/ h[2].d = <<>> \/ ~FitsTrace(h[1].d) \/ ~FitsId(h[2].d) \/ ~FitsId(h[3].d) \/ Len(h[4].d) > 2
          THEN [st |-> "bad"]
     ELSE [st |-> "ok", tid |-> h[1].d, sid |-> h[2].d, pid |-> h[3].d, fl |-> Small(h[4].d)]

TraceStr(x) == HexStr(x.tid) \o <<COLON>> \o HexStr(x.sid) \o <<COLON>> \o HexStr(x.pid) \o <<COLON>> \o HexStr(Digits(x.fl))

\* extraction: outcome [st, ctx] with st in {"none", "ctx", "bad", "odd"}
Value(http, v) == IF http THEN PctDec(v) ELSE [ok |-> TRUE, s |-> v]
AdHoc(bag, v) == FoldLeft(LAMBDA b, part : LET kv == Split(Trim(part), EQ) IN IF Len(kv) = 2 THEN Put(b, kv[1], kv[2]) ELSE b,
                          bag, Split(v, COMMA))
TextItem(cfg, http, a, it) ==
  LET k == Lower(it.k)
      v == Value(http, it.v)
  IN IF k = Normal(cfg.tname) THEN
       IF it.t \notin {"s", "l"} THEN [a EXCEPT !.st = "bad"]
       ELSE IF ~v.ok THEN [a EXCEPT !.st = IF @ = "bad" THEN @ ELSE "odd"]
       ELSE LET p == ParseTrace(v.s) IN
            IF p.st = "ok" THEN [a EXCEPT !.tr = [tid |-> p.tid, sid |-> p.sid, pid |-> p.pid, fl |-> p.fl]]
            ELSE [a EXCEPT !.st = IF @ = "bad" THEN @ ELSE p.st]
     ELSE IF StartsWith(k, Normal(cfg.prefix)) THEN
       IF v.ok THEN [a EXCEPT !.bag = Put(@, Drop(k, Len(cfg.prefix)), v.s)] ELSE [a EXCEPT !.oddbag = TRUE]
     ELSE IF k = Normal(cfg.dname) THEN IF v.ok THEN [a EXCEPT !.dbg = v.s] ELSE [a EXCEPT !.oddbag = TRUE]
     ELSE IF k = cfg.bname THEN IF v.ok THEN [a EXCEPT !.bag = AdHoc(@, v.s)] ELSE [a EXCEPT !.oddbag = TRUE]
     ELSE a
TextExtract(cfg, http, carrier) ==
  LET a == FoldLeft(LAMBDA acc, it : TextItem(cfg, http, acc, it),
                    [st |-> "ok", tr |-> NoTrace, bag |-> {}, dbg |-> <<>>, oddbag |-> FALSE], carrier)
  IN [st |-> IF a.st # "ok" THEN a.st
             ELSE IF a.tr.tid = <<>> /\ a.dbg = <<>> /\ a.bag = {} /\ ~a.oddbag THEN "none" ELSE "ctx",
      ctx |-> [tid |-> a.tr.tid, sid |-> a.tr.sid, pid |-> a.tr.pid, fl |-> a.tr.fl, bag |-> a.bag, dbg |-> a.dbg,
               has |-> a.tr.tid # <<>>], oddbag |-> a.oddbag]

U64(b) == Strip0(Nibbles(b))
Sub(b, at, n) == SubSeq(b, at, at + n - 1)
RECURSIVE BagItems(_, _, _)
\* n: count as hexadecimal digits is too large to matter: b runs out first
BagItems(b, n, bag) ==
  IF n = 0 THEN [ok |-> TRUE, bag |-> bag]
  ELSE IF Len(b) < 4 THEN [ok |-> FALSE, bag |-> bag]
  ELSE LET kl == U64(Sub(b, 1, 4)) IN
       IF Len(kl) > 6 \/ Len(b) < 8 + Small(kl) THEN [ok |-> FALSE, bag |-> bag]
       ELSE LET k == Utf8Dec(Sub(b, 5, Small(kl)))
                r == Drop(b, 4 + Small(kl))
                vl == U64(Sub(r, 1, 4))
            IN IF Len(vl) > 6 \/ Len(r) < 4 + Small(vl) THEN [ok |-> FALSE, bag |-> bag]
               ELSE LET v == Utf8Dec(Sub(r, 5, Small(vl))) IN
                    IF ~k.ok \/ ~v.ok THEN [ok |-> FALSE, bag |-> bag]
                    ELSE BagItems(Drop(r, 4 + Small(vl)), n - 1, Put(bag, k.s, v.s))
BinExtract(b) ==
  IF Len(b) < 37 THEN [st |-> "bad", oddbag |-> FALSE]
  ELSE LET cnt == U64(Sub(b, 34, 4))
           items == BagItems(Drop(b, 37), IF Len(cnt) > 6 THEN 10000000 ELSE Small(cnt), {})
           tid == U64(Sub(b, 1, 16))
           sid == U64(Sub(b, 17, 8))
       IN IF ~items.ok THEN [st |-> "bad", oddbag |-> FALSE]
          ELSE [st |-> "ctx", oddbag |-> FALSE,
                ctx |-> [tid |-> tid, sid |-> sid, pid |-> U64(Sub(b, 25, 8)), fl |-> b[33],
                         bag |-> items.bag, dbg |-> <<>>, has |-> tid # <<>> /\ sid # <<>>]]
ZipExtract(c) == IF c.tid = <<>> THEN [st |-> "none", oddbag |-> FALSE]
                 ELSE [st |-> "ctx", oddbag |-> FALSE,
                       ctx |-> [tid |-> c.tid, sid |-> c.sid, pid |-> c.pid, fl |-> c.fl, bag |-> {}, dbg |-> <<>>,
                                has |-> c.sid # <<>>]]

B3Names == [trace |-> <<120,45,98,51,45,116,114,97,99,101,105,100>>, span |-> <<120,45,98,51,45,115,112,97,110,105,100>>,
            parent |-> <<120,45,98,51,45,112,97,114,101,110,116,115,112,97,110,105,100>>,
            sampled |-> <<120,45,98,51,45,115,97,109,112,108,101,100>>, flags |-> <<120,45,98,51,45,102,108,97,103,115>>]
ONE == <<49>>
B3Id(a, f, it, fits(_)) ==
  IF it.t # "s" THEN [a EXCEPT !.st = "bad"]
  ELSE LET h == ParseHex(it.v) IN
       IF h.st = "ok" /\ fits(h.d) THEN [a EXCEPT ![f] = h.d]
       ELSE IF h.st = "odd" THEN [a EXCEPT !.st = IF @ = "bad" THEN @ ELSE "odd"]
       ELSE [a EXCEPT !.st = "bad"]
B3Item(a, it) ==
  LET k == Lower(it.k) IN
  IF it.t = "n" THEN a
  ELSE IF k = B3Names.trace THEN B3Id(a, "tid", it, FitsTrace)
  ELSE IF k = B3Names.span THEN B3Id(a, "sid", it, FitsId)
  ELSE IF k = B3Names.parent THEN B3Id(a, "pid", it, FitsId)
  ELSE IF k = B3Names.sampled /\ it.v = ONE /\ it.t = "s" THEN [a EXCEPT !.sampled = 1]
  ELSE IF k = B3Names.flags /\ it.v = ONE /\ it.t = "s" THEN [a EXCEPT !.debug = 1]
  ELSE a
B3Extract(carrier) ==
  LET a == FoldLeft(B3Item, [st |-> "ok", tid |-> <<>>, sid |-> <<>>, pid |-> <<>>, sampled |-> 0, debug |-> 0], carrier)
  IN IF a.st # "ok" THEN [st |-> a.st, oddbag |-> FALSE]
     ELSE IF a.tid = <<>> \/ a.sid = <<>> THEN [st |-> "none", oddbag |-> FALSE]
     ELSE [st |-> "ctx", oddbag |-> FALSE,
           ctx |-> [tid |-> a.tid, sid |-> a.sid, pid |-> a.pid, bag |-> {}, dbg |-> <<>>, has |-> TRUE,
                    fl |-> IF a.debug = 1 THEN 3 ELSE a.sampled]]   \* a debug trace is a sampled one

Extract(cfg, fmt, carrier) ==
  CASE fmt = "text" -> TextExtract(cfg, FALSE, carrier)
    [] fmt = "http" -> TextExtract(cfg, TRUE, carrier)
    [] fmt = "binary" -> BinExtract(carrier)
    [] fmt = "zipkin" -> ZipExtract(carrier)
    [] fmt = "b3" -> B3Extract(carrier)

\* injection, as the specification would write it (text, http, b3: a set of [k, v])
U32(n) == Bytes(Pad(Digits(n), 8))
Blob(s) == LET u == Utf8(s) IN U32(Len(u)) \o u
BinInject(x, order) == Bytes(Pad(x.tid, 32)) \o Bytes(Pad(x.sid, 16)) \o Bytes(Pad(x.pid, 16)) \o <<x.fl>> \o U32(Len(order))
                       \o FoldLeft(LAMBDA a, q : a \o Blob(q[1]) \o Blob(q[2]), <<>>, order)
Item(k, v) == [k |-> k, v |-> v, t |-> "s"]
TextInject(cfg, http, x) ==
  {Item(Normal(cfg.tname), TraceStr(x))} \cup
  {Item(Normal(cfg.prefix) \o q[1], IF http THEN PctEnc(q[2]) ELSE q[2]) : q \in x.bag}
B3Inject(cfg, x) ==
  {Item(B3Names.trace, HexStr(Pad(x.tid, IF cfg.wide \/ Len(x.tid) > 16 THEN 32 ELSE 16))), Item(B3Names.span, HexStr(Pad(x.sid, 16)))}
  \cup (IF x.pid # <<>> THEN {Item(B3Names.parent, HexStr(Pad(x.pid, 16)))} ELSE {})
  \cup (IF (x.fl \div 2) % 2 = 1 THEN {Item(B3Names.flags, ONE)}
        ELSE IF x.fl % 2 = 1 THEN {Item(B3Names.sampled, ONE)} ELSE {})
\* what a context looks like after a round trip through a format
Sent(fmt, x) == [tid |-> x.tid, sid |-> x.sid, pid |-> x.pid,
                 fl |-> IF fmt # "b3" THEN x.fl ELSE IF (x.fl \div 2) % 2 = 1 THEN 3 ELSE x.fl % 2,
                 bag |-> IF fmt \in {"text", "http", "binary"} THEN x.bag ELSE {}]

\* judging what the code did ---------------------------------------------------------
BagSet(b) == {<<b[i][1], b[i][2]>> : i \in 1..Len(b)}
Keys(c) == {c[i].k : i \in 1..Len(c)}
\* dictionaries have distinct keys
Get(c, k) == LET i == CHOOSE i \in 1..Len(c) : c[i].k = k IN c[i]
HeaderSafe(s) == \A i \in 1..Len(s) : s[i] \in 33..126
InjectBad(cfg, e) ==
  LET x == [e.ctx EXCEPT !.bag = BagSet(@)]
      t == Normal(cfg.tname)
      http == e.fmt = "http"
  IN IF e.raised # "" THEN {"inject_raised"}
     ELSE CASE e.fmt \in {"text", "http"} ->
            LET own == {t} \cup {Normal(cfg.prefix) \o q[1] : q \in x.bag}
            IN (IF Keys(e.after) # Keys(e.before) \cup own THEN {"inject_keys"} ELSE
                (IF LET p == ParseTrace(Get(e.after, t).v) IN
                    p.st # "ok" \/ (p.st = "ok" /\ <<p.tid, p.sid, p.pid, p.fl>> # <<x.tid, x.sid, x.pid, x.fl>>)
                 THEN {"inject_ids"} ELSE {}) \cup
                (IF \E q \in x.bag :
                      LET w == Get(e.after, Normal(cfg.prefix) \o q[1])
                          d == Value(http, w.v)
                      IN w.t # "s" \/ ~d.ok \/ d.s # q[2] \/ (http /\ ~HeaderSafe(w.v))
                 THEN {"inject_baggage"} ELSE {}) \cup
                (IF \E i \in 1..Len(e.before) : e.before[i].k \notin own /\ Get(e.after, e.before[i].k) # e.before[i]
                 THEN {"inject_keys"} ELSE {}))
       [] e.fmt = "binary" ->
            LET n == Len(e.before)
                d == BinExtract(Drop(e.after, n))
            IN IF SubSeq(e.after, 1, n) # e.before THEN {"inject_keys"}
               ELSE IF Drop(e.after, n) # BinInject(x, e.ctx.bag)
                    THEN IF d.st = "ctx" /\ d.ctx.bag = x.bag /\ <<d.ctx.tid, d.ctx.sid, d.ctx.pid, d.ctx.fl>> = <<x.tid, x.sid, x.pid, x.fl>>
                            /\ Len(e.after) - n = Len(BinInject(x, e.ctx.bag))
                         THEN {} ELSE IF d.st = "ctx" /\ d.ctx.bag = x.bag THEN {"inject_ids"} ELSE {"inject_baggage", "inject_ids"}
               ELSE {}
       [] e.fmt = "zipkin" ->
            IF <<e.after.tid, e.after.sid, e.after.pid, e.after.fl>> # <<x.tid, x.sid, x.pid, x.fl>> THEN {"inject_ids"} ELSE {}
       [] e.fmt = "b3" ->
            LET a == [i \in 1..Len(e.after) |-> [e.after[i] EXCEPT !.k = Lower(@)]]
                r == B3Extract(a)
                width == IF cfg.wide \/ Len(x.tid) > 16 THEN 32 ELSE 16
            IN IF r.st # "ctx" THEN {"inject_ids"}
               ELSE (IF <<r.ctx.tid, r.ctx.sid, r.ctx.pid>> # <<x.tid, x.sid, x.pid>> THEN {"inject_ids"} ELSE {}) \cup
                    (IF r.ctx.fl # Sent("b3", x).fl THEN {"inject_flags"} ELSE {}) \cup
                    (IF Len(Get(a, B3Names.trace).v) # width \/ Len(Get(a, B3Names.span).v) # 16 THEN {"inject_width"} ELSE {})
Corrupted == "SpanContextCorruptedException"
ExtractBad(cfg, e) ==
  LET want == Extract(cfg, e.fmt, e.carrier) IN
  IF e.raised \notin {"", Corrupted} THEN {"extract_raised"}
  ELSE IF want.st = "odd" THEN {}
  ELSE IF want.st = "bad" THEN IF e.raised # Corrupted THEN {"extract_accepts"} ELSE {}
  ELSE IF e.raised # "" THEN {"extract_rejects"}
  ELSE IF want.st = "none" THEN IF e.res # <<>> THEN {"extract_invents"} ELSE {}
  ELSE IF e.res = <<>> THEN {"extract_misses"}
  ELSE LET g == e.res[1]
           w == want.ctx IN
       (IF g.has # w.has THEN {"extract_ids"} ELSE {}) \cup
       (IF w.has /\ <<g.tid, g.sid, g.pid>> # <<w.tid, w.sid, w.pid>> THEN {"extract_ids"} ELSE {}) \cup
       (IF w.has /\ g.fl # w.fl THEN IF e.fmt = "b3" /\ w.fl = 3 /\ g.fl = 2 THEN {"b3_debug"} ELSE {"extract_flags"} ELSE {}) \cup
       (IF ~want.oddbag /\ BagSet(g.bag) # w.bag THEN {"extract_baggage"} ELSE {}) \cup
       (IF ~want.oddbag /\ g.dbg # w.dbg THEN {"extract_debug"} ELSE {})
=============================================================================
