---------------------------------- MODULE Samp ----------------------------------
(* The meaning of the samplers.                                                  *)
(*  probability  [one, f, tok]: 1 or the hexadecimal digits of the fraction, and  *)
(*               its text as it appears in tags                                    *)
(*  rate         [r1, r2, tok]: bounds in 1/1024 per second                        *)
(*  limiter      [lo, hi, t, rate]: bounds of the balance in 1/1024 credits at     *)
(*               time t (1/1024 s).  Bounds coincide when the arithmetic is exact. *)
(*  sampler      [kind |-> "const" | "prob" | "rate" | "guar" | "adapt", ...]      *)
EXTENDS StrLib, Integers, TLC
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

\* probability --------------------------------------------------------------------
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLess(Tail(a), Tail(b))
Below(tid, p) ==
  IF p.one THEN TRUE
  ELSE LET d == Pad(tid, 16)
           f == IF Len(p.f) < 16 THEN p.f \o Zeros(16 - Len(p.f)) ELSE SubSeq(p.f, 1, 16)
           tail == \E i \in 17..Len(p.f) : p.f[i] # 0
       IN LexLess(d, f) \/ (d = f /\ tail)

\* rate limiter ---------------------------------------------------------------------
M1(r) == Mx(r.r1, 1024)
M2(r) == Mx(r.r2, 1024)
FullAfter(m, r, el) == r > 0 /\ el > (m * 1024) \div r + 1
Refill(L, now) ==
  LET el == Mx(now - L.t, 0)      \* a clock that is stepped back gives and takes nothing
      r == L.rate
  IN [L EXCEPT !.t = now,
        !.lo = IF FullAfter(M1(r), r.r1, el) THEN M1(r) ELSE Mn(M1(r), @ + (el * r.r1) \div 1024),
        !.hi = IF FullAfter(M2(r), r.r2, el) THEN M2(r) ELSE Mn(M2(r), @ + (el * r.r2 + 1023) \div 1024)]
Allowed(L) == (IF L.hi >= 1024 THEN {TRUE} ELSE {}) \cup (IF L.lo < 1024 THEN {FALSE} ELSE {})
Spend(L, yes) == IF yes THEN [L EXCEPT !.lo = Mx(@, 1024) - 1024, !.hi = Mx(@, 1024) - 1024]
                 ELSE [L EXCEPT !.hi = Mn(@, 1024), !.lo = Mn(@, 1024)]
\* it is not known which of the allowed outcomes was taken
SpendAny(L) == LET A == {Spend(L, y) : y \in Allowed(L)}
                   lo == CHOOSE x \in {a.lo : a \in A} : \A a \in A : x <= a.lo
                   hi == CHOOSE x \in {a.hi : a \in A} : \A a \in A : x >= a.hi
               IN [L EXCEPT !.lo = lo, !.hi = hi]
Small1(a, b) == a < 46340 /\ b < 46340
MulDivDown(a, b, c) == IF Small1(a, b) THEN (a * b) \div c ELSE (((a \div 64) * (b \div 64)) \div (c \div 64 + 1)) * 64
MulDivUp(a, b, c) == IF Small1(a, b) THEN (a * b + c - 1) \div c
                     ELSE (((a \div 64 + 1) * (b \div 64 + 1)) \div (c \div 64) + 1) * 64
\* a new rate: the balance stays in proportion to the capacity
Rescale(L0, rate, now) ==
  IF L0.rate = rate THEN L0
  ELSE LET L == Refill(L0, now) IN
       [lo |-> Mn(M1(rate), MulDivDown(L.lo, M1(rate), M2(L.rate))), hi |-> Mn(M2(rate), MulDivUp(L.hi, M2(rate), M1(L.rate))),
        t |-> now, rate |-> rate]
\* q quarters of the capacity at first
NewLimiter(rate, now, q) == [lo |-> (M1(rate) * q) \div 4, hi |-> (M2(rate) * q + 3) \div 4, t |-> now, rate |-> rate]

\* samplers ----------------------------------------------------------------------------
NewConst(yes) == [kind |-> "const", yes |-> yes]
NewProb(p) == [kind |-> "prob", p |-> p]
NewRate(r, now, q) == [kind |-> "rate", L |-> NewLimiter(r, now, q)]
NewGuar(p, lb, now, q) == [kind |-> "guar", p |-> p, L |-> NewLimiter(lb, now, q)]
\* configuration of an adaptive sampler: lb, def, ops: sequence of [op, p]
NewAdapt(c, max, now, q) ==
  [kind |-> "adapt", lb |-> c.lb, def |-> c.def, max |-> max,
   ops |-> [o \in {c.ops[i].op : i \in 1..Len(c.ops)} |->
              LET last == CHOOSE i \in 1..Len(c.ops) : c.ops[i].op = o /\ \A j \in (i + 1)..Len(c.ops) : c.ops[j].op # o
              IN NewGuar(c.ops[last].p, c.lb, now, q)]]
UpdGuar(g, p, lb, now) == [g EXCEPT !.p = p, !.L = Rescale(@, lb, now)]
UpdAdapt(a, c, now, q) ==
  LET upd(x, e) == IF e.op \in DOMAIN x THEN [x EXCEPT ![e.op] = UpdGuar(@, e.p, c.lb, now)]
                   ELSE x @@ (e.op :> NewGuar(e.p, c.lb, now, q))
  IN [a EXCEPT !.lb = c.lb, !.def = c.def, !.ops = FoldLeft(upd, @, c.ops)]

\* the answers: allowed decisions, tags of a positive one, and the sampler afterwards
ProbTags(p) == <<"probabilistic", p.tok>>
AskLimiter(L0, now, tags, wrap(_)) ==
  LET L == Refill(L0, now) IN
  [yes |-> Allowed(L), tags |-> tags, after |-> [y \in BOOLEAN |-> wrap(Spend(L, y))]]
AskGuar(g, tid, now, wrap(_)) ==
  IF Below(tid, g.p)
  THEN LET x == wrap([g EXCEPT !.L = SpendAny(Refill(@, now))]) IN
       [yes |-> {TRUE}, tags |-> ProbTags(g.p), after |-> [y \in BOOLEAN |-> x]]
  ELSE AskLimiter(g.L, now, <<"lowerbound", g.p.tok>>, LAMBDA L : wrap([g EXCEPT !.L = L]))
Ask(s, tid, op, now, q) ==
  CASE s.kind = "const" -> [yes |-> {s.yes}, tags |-> <<"const", IF s.yes THEN "True" ELSE "False">>, after |-> [y \in BOOLEAN |-> s]]
    [] s.kind = "prob" -> [yes |-> {Below(tid, s.p)}, tags |-> ProbTags(s.p), after |-> [y \in BOOLEAN |-> s]]
    [] s.kind = "rate" -> AskLimiter(s.L, now, <<"ratelimiting", s.L.rate.tok>>, LAMBDA L : [s EXCEPT !.L = L])
    [] s.kind = "guar" -> AskGuar(s, tid, now, LAMBDA g : g)
    [] s.kind = "adapt" ->
         IF op \in DOMAIN s.ops THEN AskGuar(s.ops[op], tid, now, LAMBDA g : [s EXCEPT !.ops[op] = g])
         ELSE IF Cardinality(DOMAIN s.ops) >= s.max
              THEN [yes |-> {Below(tid, s.def)}, tags |-> ProbTags(s.def), after |-> [y \in BOOLEAN |-> s]]
              ELSE AskGuar(NewGuar(s.def, s.lb, now, q), tid, now, LAMBDA g : [s EXCEPT !.ops = (op :> g) @@ @])

\* a strategy from the agent: the sampler afterwards and whether that counts as an update
\*  [kind |-> "prob", p], [kind |-> "rate", r], [kind |-> "adapt", lb, def, ops], "invalid", "garbage"
Strategy(s, e, max, now, q) ==
  CASE e.kind = "prob" -> IF s = NewProb(e.p) THEN [s |-> s, upd |-> 0, err |-> 0] ELSE [s |-> NewProb(e.p), upd |-> 1, err |-> 0]
    [] e.kind = "rate" -> IF s.kind = "rate"
                          THEN [s |-> [s EXCEPT !.L = Rescale(@, e.r, now)], upd |-> IF s.L.rate = e.r THEN 0 ELSE 1, err |-> 0]
                          ELSE [s |-> NewRate(e.r, now, q), upd |-> 1, err |-> 0]
    [] e.kind = "adapt" -> [s |-> IF s.kind = "adapt" THEN UpdAdapt(s, e, now, q) ELSE NewAdapt(e, max, now, q), upd |-> 1, err |-> 0]
    [] e.kind = "invalid" -> [s |-> s, upd |-> 0, err |-> 1]
    [] e.kind \in {"garbage", "failed"} -> [s |-> s, upd |-> 0, err |-> 0]
=============================================================================
