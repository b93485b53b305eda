------------------------------- MODULE HopDesign -------------------------------
(* Requests that travel between services, for the driver; and what follows from    *)
(* the meaning (Hop) of every step for the traces as a whole.  Bug names a mutated   *)
(* meaning.                                                                          *)
EXTENDS Hop, TLC, Json
CONSTANTS Svcs, Len0, MaxSpans, MaxMsgs, Keys, Rich, Bug
VARIABLES m, hist,
          kind       \* of the next event (so that runs have as many of each), if chosen
vars == <<m, hist, kind>>
E0 == [k |-> "", svc |-> 0, n |-> 0, yes |-> FALSE, fmt |-> "", strip |-> "none", rel |-> "child", key |-> "", v |-> ""]
H == 1..Len(m.sp)
B == BOOLEAN
Rels == IF Rich THEN {"child", "follows"} ELSE {"child"}
New == IF Len(m.sp) >= MaxSpans THEN {} ELSE
       {[E0 EXCEPT !.k = "root", !.svc = i, !.yes = y] : i \in Svcs, y \in B}
       \cup (IF Rich THEN {[E0 EXCEPT !.k = "debug", !.svc = i] : i \in Svcs} ELSE {})
       \cup {[E0 EXCEPT !.k = "child", !.n = h, !.rel = r] : h \in H, r \in Rels}
       \cup {[E0 EXCEPT !.k = "recv", !.n = n, !.svc = i, !.yes = y, !.strip = s, !.rel = r] :
              n \in 1..Len(m.msg), i \in Svcs, y \in B, r \in Rels, s \in IF Rich THEN {"none", "all", "bag", "trace"} ELSE {"none", "trace"}}
Use == {[E0 EXCEPT !.k = "bag", !.n = h, !.key = x, !.v = "v" \o ToString(m.now)] : h \in H, x \in Keys}
       \cup {[E0 EXCEPT !.k = "finish", !.n = h] : h \in {h \in H : ~m.sp[h].fin}}
       \cup (IF Len(m.msg) >= MaxMsgs THEN {} ELSE
             {[E0 EXCEPT !.k = "send", !.n = h, !.fmt = f] : h \in H, f \in IF Rich THEN {"text", "http", "bin"} ELSE {"http"}})
       \cup (IF Rich THEN {[E0 EXCEPT !.k = "force", !.n = h, !.yes = y] : h \in {h \in H : ~m.sp[h].fin}, y \in B}
                          \cup {[E0 EXCEPT !.k = "wait"]} ELSE {})
Apply(e) ==
  CASE Bug = "resample" /\ e.k = "recv" -> LET x == Step(m, e, FALSE) IN [x EXCEPT !.sp[Len(x.sp)].on = e.yes]
    [] Bug = "late" /\ e.k = "recv" /\ e.strip = "none" ->
         LET x == Step(m, e, FALSE) IN [x EXCEPT !.sp[Len(x.sp)].bag = m.sp[m.msg[e.n].par].bag]
    [] Bug = "alias" /\ e.k = "bag" -> LET x == Step(m, e, FALSE) IN
         [x EXCEPT !.sp = [h \in DOMAIN @ |-> IF @[h].par = e.n THEN [@[h] EXCEPT !.bag = x.sp[e.n].bag] ELSE @[h]]]
    [] Bug = "hop" /\ e.k = "recv" /\ e.strip = "none" ->
         \* the parent of the sender instead of the sender
         LET x == Step(m, e, FALSE) IN [x EXCEPT !.sp[Len(x.sp)].par = m.sp[m.msg[e.n].par].par]
    [] OTHER -> Step(m, e, FALSE)
Init == m = M0 /\ hist = <<>> /\ kind = "any"
Choose == /\ Rich /\ kind = "any" /\ Len(hist) < Len0
          /\ kind' \in {e.k : e \in New \cup Use} /\ UNCHANGED <<m, hist>>
Act == /\ Len(hist) < Len0 /\ (Rich => kind # "any") /\ kind' = "any"
       /\ \E e \in New \cup Use : (Rich => e.k = kind) /\ hist' = Append(hist, e) /\ m' = Apply(e)
Next == Choose \/ Act
Spec == Init /\ [][Next]_vars
View == m
RECURSIVE Anc(_)
\* h and what caused it
Anc(h) == IF h = 0 THEN {} ELSE {h} \cup Anc(m.sp[h].par)
Top(h) == CHOOSE g \in Anc(h) : m.sp[g].par = 0
\* every trace is a tree with one root ...
Tree == \A h \in H : /\ m.sp[h].par < h
                     /\ \A g \in H : m.sp[g].tr = m.sp[h].tr => Top(g) = Top(h)
\* ... decided at the root ...
Decided == \A h \in H : (\A g \in Anc(h) : ~m.sp[g].forced) => m.sp[h].on = m.sp[Top(h)].on /\ (m.sp[h].asked <=> m.sp[h].par = 0 /\ ~m.sp[h].dbg)
\* ... and baggage comes from causes, and from the past (only a message without trace headers breaks the chain)
SetOf(v) == CHOOSE i \in 1..Len(m.sets) : m.sets[i][3] = v
Down == \A h \in H : \A p \in m.sp[h].bag : LET s == m.sets[SetOf(p[2])] IN
          s[1] = h \/ s[2] < m.sp[h].born \/ m.sp[h].par = 0
Caused == \A h \in H : (\A g \in H : m.sp[g].par # 0 \/ m.sp[g].bag = {}) =>
            \A p \in m.sp[h].bag : m.sets[SetOf(p[2])][1] \in Anc(h)
Emit == (Len(hist) = Len0 /\ Len(m.msg) > 0) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
