------------------------------- MODULE SampDesign -------------------------------
(* The remotely controlled sampler: questions, strategies (also invalid ones),    *)
(* time.  Bug mutates the design.  Behaviours are printed as commands.            *)
EXTENDS Samp, Json
CONSTANTS Bug, MaxOps, Depth, OpNames
VARIABLES s, now, hist, last, cfgd
vars == <<s, now, hist, last, cfgd>>
View == <<s, now, cfgd, Len(hist), last>>
P0 == [one |-> FALSE, f |-> <<>>, tok |-> "0.0"]
P5 == [one |-> FALSE, f |-> <<8>>, tok |-> "0.5"]
P1 == [one |-> TRUE, f |-> <<>>, tok |-> "1.0"]
R(n, t) == [r1 |-> n, r2 |-> n, tok |-> t]
Rates == {R(0, "0.0"), R(512, "0.5"), R(2048, "2.0")}
Tids == {<<1>>, <<9>> \o Zeros(15)}
Adapts == {[kind |-> "adapt", lb |-> lb, def |-> d, ops |-> o] :
             lb \in {R(512, "0.5"), R(2048, "2.0")}, d \in {P0, P5},
             o \in {<<>>, <<[op |-> "a", p |-> P0]>>, <<[op |-> "a", p |-> P1], [op |-> "b", p |-> P5]>>}}
Resps == {[kind |-> "prob", p |-> p] : p \in {P0, P5, P1}} \cup {[kind |-> "rate", r |-> r] : r \in Rates} \cup Adapts
         \cup {[kind |-> "invalid"], [kind |-> "garbage"]}
Init == /\ s \in {NewProb(P5), NewRate(R(512, "0.5"), 0, 2)} /\ now = 0 /\ hist = <<>> /\ last = <<>>
        /\ cfgd = {}
\* a different design of an invalid or repeated strategy
Mutate(e, r) ==
  CASE Bug = "halfway" /\ e.kind = "invalid" /\ s.kind = "adapt" -> [r EXCEPT !.s.def = P1]
    [] Bug = "refill" /\ e.kind = "rate" /\ s.kind = "rate" -> [r EXCEPT !.s = NewRate(e.r, now, 4)]
    [] Bug = "forget" /\ e.kind = "adapt" -> [r EXCEPT !.s = NewAdapt(e, MaxOps, now, 2)]
    [] OTHER -> r
Resp(e) == LET r == Mutate(e, Strategy(s, e, MaxOps, now, 2)) IN
  /\ s' = r.s /\ last' = <<"resp", e.kind, s = r.s>> /\ hist' = Append(hist, <<"resp", e>>) /\ UNCHANGED now
  /\ cfgd' = IF e.kind = "adapt" THEN (IF s.kind = "adapt" THEN cfgd ELSE {}) \cup {e.ops[i].op : i \in 1..Len(e.ops)} ELSE cfgd
Question(tid, o) ==
  LET a == Ask(IF Bug = "unbounded" /\ s.kind = "adapt" THEN [s EXCEPT !.max = 99] ELSE s, tid, o, now, 2) IN
  /\ \E y \in a.yes : /\ s' = IF Bug = "unbounded" /\ s.kind = "adapt" THEN [a.after[y] EXCEPT !.max = MaxOps] ELSE a.after[y]
                      /\ last' = <<"ask", y, tid, o>>
  /\ hist' = Append(hist, <<"ask", tid, o>>) /\ UNCHANGED <<now, cfgd>>
Tick(n) == now' = now + n /\ hist' = Append(hist, <<"tick", n>>) /\ last' = <<>> /\ UNCHANGED <<s, cfgd>>
Next == /\ Len(hist) < Depth
        /\ (\E e \in Resps : Resp(e)) \/ (\E t \in Tids, o \in OpNames : Question(t, o)) \/ \E n \in {256, 2048} : Tick(n)
Spec == Init /\ [][Next]_vars
Bounded == s.kind = "adapt" => Cardinality(DOMAIN s.ops \ cfgd) <= s.max
Limiters == (IF s.kind \in {"rate", "guar"} THEN {s.L} ELSE {}) \cup (IF s.kind = "adapt" THEN {s.ops[o].L : o \in DOMAIN s.ops} ELSE {})
Sound == \A L \in Limiters : 0 <= L.lo /\ L.lo <= L.hi /\ L.hi <= M2(L.rate)
InvalidKeeps == [][(last' # last /\ last' # <<>> /\ last'[1] = "resp" /\ last'[2] \in {"invalid", "garbage"}) => s' = s]_vars
\* a strategy never fills up a limiter
NoRefill == [][(s.kind = "rate" /\ s'.kind = "rate" /\ now' = now /\ s.L.t = now /\ M1(s.L.rate) = M1(s'.L.rate))
                 => s'.L.hi <= s.L.hi]_vars
Remembers == [][(s.kind = "adapt" /\ s'.kind = "adapt") =>
                  /\ DOMAIN s.ops \subseteq DOMAIN s'.ops
                  /\ \A o \in DOMAIN s.ops : (s.ops[o].L.t = now /\ s.ops[o].L.hi = 0 /\ now' = now) => s'.ops[o].L.lo = 0]_vars
\* every operation that waited long enough is sampled
LowerBound == s.kind = "adapt" =>
  \A o \in DOMAIN s.ops : LET L == s.ops[o].L IN
     (L.rate.r1 > 0 /\ now - L.t >= (1024 * 1024) \div L.rate.r1 + 1) => Ask(s, <<15>> \o Zeros(15), o, now, 2).yes = {TRUE}
Emit == (Len(hist) = Depth) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
