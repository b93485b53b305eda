------------------------------- MODULE PairDesign -------------------------------
(* Sequences of uses of several tracers: what one does can be seen at no other, and    *)
(* a tracer looks as if it was alone, except for the contexts it was given.             *)
EXTENDS Pair, Json
CONSTANTS N, Len0, MaxSpans, MaxCars, Small, Bug
VARIABLES m, hist, last
vars == <<m, hist, last>>
G == [i \in 1..N |-> [hdr |-> IF i = 3 THEN "h1" ELSE "h" \o ToString(i), pre |-> "p" \o ToString(i), dhdr |-> "d" \o ToString(i),
                      wide |-> i = 2, on |-> i # 3, max |-> 3 * i, one |-> i = 2]]
E0 == [k |-> "", i |-> 0, n |-> 0, c |-> 0, ign |-> FALSE, act |-> FALSE, srv |-> FALSE, len |-> 0, key |-> "", val |-> "", fmt |-> "", th |-> 0]
Open == {h \in 1..Len(m.sp) : ~m.sp[h].fin}
H == 1..Len(m.sp)
Made == {i \in 1..N : m.tr[i].made}
Starts == {[E0 EXCEPT !.k = "start", !.i = i, !.n = n, !.c = c, !.ign = g, !.act = a, !.srv = s] :
             i \in Made, n \in {0} \cup H, c \in {0} \cup 1..Len(m.ca), g \in IF Small THEN {FALSE} ELSE BOOLEAN, a \in BOOLEAN, s \in IF Small THEN {TRUE} ELSE BOOLEAN}
Cmds == {[E0 EXCEPT !.k = "make", !.i = i] : i \in (1..N) \ Made}
  \cup (IF Len(m.sp) < MaxSpans THEN {e \in Starts : e.n = 0 \/ e.c = 0} ELSE {})
  \cup {[E0 EXCEPT !.k = "leave", !.i = i] : i \in {j \in Made : m.tr[j].stack # <<>>}}
  \cup {[E0 EXCEPT !.k = "tag", !.n = n, !.len = 5] : n \in Open}
  \cup {[E0 EXCEPT !.k = "bag", !.n = n, !.key = "k", !.val = ToString(Len(hist))] : n \in Open}
  \cup {[E0 EXCEPT !.k = "finish", !.n = n] : n \in Open}
  \cup (IF Len(m.ca) < MaxCars THEN {[E0 EXCEPT !.k = "inject", !.i = i, !.n = n, !.fmt = f] : i \in Made, n \in H, f \in IF Small THEN {"text"} ELSE {"text", "http", "bin"}}
                                   \cup {[E0 EXCEPT !.k = "debug", !.i = i] : i \in Made} ELSE {})
  \cup {[E0 EXCEPT !.k = "close", !.i = i] : i \in {j \in Made : ~m.tr[j].closed}}
\* a process in which something is shared
Mutate(e, x) ==
  CASE Bug = "scopes" /\ e.k = "start" /\ e.act -> [x EXCEPT !.tr = [i \in 1..N |-> [x.tr[i] EXCEPT !.stack = x.tr[e.i].stack]]]
    [] Bug = "counters" /\ e.k = "start" -> [x EXCEPT !.tr = [i \in 1..N |-> [x.tr[i] EXCEPT !.started = Len(x.sp)]]]
    [] Bug = "close" /\ e.k = "close" -> [x EXCEPT !.tr = [i \in 1..N |-> [x.tr[i] EXCEPT !.closed = TRUE, !.sent = IF i = e.i THEN @ ELSE <<>>]]]
    [] OTHER -> x
Init == m = M0(N) /\ hist = <<>> /\ last = E0
Next == /\ Len(hist) < Len0
        /\ \E e \in Cmds : /\ m' = Mutate(e, Step(m, G, e, "t" \o ToString(Len(m.sp)), "s" \o ToString(Len(m.sp))))
                           /\ hist' = Append(hist, e) /\ last' = e
Spec == Init /\ [][Next]_vars
Hidden == m
Apart == [][\A j \in 1..N : j # Actor(m, last') => View(m', j) = View(m, j)]_vars
\* each tracer's counters are about its own spans
Own == \A i \in 1..N : /\ m.tr[i].started = Len(SelectSeq(m.sp, LAMBDA s : s.i = i))
                       /\ m.tr[i].finished = Len(SelectSeq(m.sp, LAMBDA s : s.i = i /\ s.fin /\ s.on))
\* a trace spans tracers only by parents that were given
Joined == \A a, b \in 1..Len(m.sp) : (m.sp[a].tid = m.sp[b].tid /\ a # b) => (m.sp[a].par # "" \/ m.sp[b].par # "" \/ m.sp[a].sid = m.sp[b].sid)
Emit == (Len(hist) = Len0) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
