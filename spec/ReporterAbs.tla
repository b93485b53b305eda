------------------------------ MODULE ReporterAbs ------------------------------
(* The observable behaviour of the remote reporter, as a total step function:  *)
(* Step(m, e) is the set of outcomes [m, bad] that the observable event e can  *)
(* have in the abstract state m; bad names the clauses that e breaks.          *)
(*                                                                             *)
(* m.inbox    what the application handed over and the event loop has not      *)
(*            looked at yet: spans and close requests, in order                *)
(* m.waiting  accepted spans that no batch was made of yet, oldest first       *)
(* m.inflight the batch whose fate is open                                     *)
(* m.res      how the agent answered the batch in flight ("" = not yet)        *)
(* m.closed   the loop has seen a close request                                *)
(* m.pend     closes whose future is pending                                   *)
(* m.at       when each waiting span could first join a batch                   *)
EXTENDS Naturals, Sequences, FiniteSets

SeqToSet(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a > b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

M0(Q, B, F) ==
  [Q |-> Q, B |-> B, F |-> F, inbox |-> <<>>, waiting |-> <<>>, inflight |-> <<>>, res |-> "",
   closed |-> FALSE, pend |-> {}, at |-> <<>>, now |-> 0, okN |-> 0, errN |-> 0, dropN |-> 0]

Out(m, bad) == [m |-> m, bad |-> bad]

Room(m) == IF m.inflight # <<>> THEN m.Q ELSE m.Q + m.B

\* the loop looks at the head of the inbox and does not drop it
AcceptHead(o) ==
  LET m == o.m  h == Head(m.inbox) IN
  IF h.k = "close" THEN Out([m EXCEPT !.inbox = Tail(@), !.closed = TRUE], o.bad)
  ELSE Out([m EXCEPT !.inbox = Tail(@), !.waiting = Append(@, h.id), !.at = Append(@, m.now)],
           o.bad \cup (IF m.closed THEN {"accept_after_close"} ELSE {})
                 \cup (IF Len(m.waiting) >= Room(m) THEN {"overfull"} ELSE {}))

RECURSIVE AcceptN(_, _)
AcceptN(o, n) == IF n = 0 THEN o ELSE AcceptN(AcceptHead(o), n - 1)

\* all the states the loop can be in before the next event becomes visible
Ahead(m) == {AcceptN(Out(m, {}), n) : n \in 0..Len(m.inbox)}

Report(m, e) ==
  {Out([m EXCEPT !.inbox = Append(@, [k |-> "span", id |-> e.id])],
       IF e.raised THEN {"raises"} ELSE {})}

Close(m, e) ==
  {Out([m EXCEPT !.inbox = Append(@, [k |-> "close", id |-> e.id]), !.pend = @ \cup {e.id}],
       IF e.raised THEN {"close_raises"} ELSE {})}

DropOne(o) ==
  LET m == o.m IN
  IF m.inbox = <<>> \/ Head(m.inbox).k = "close"
  THEN Out([m EXCEPT !.dropN = @ + 1], o.bad \cup {"drop_count"})
  ELSE Out([m EXCEPT !.inbox = Tail(@), !.dropN = @ + 1],
           o.bad \cup (IF ~m.closed /\ Len(m.waiting) < m.Q THEN {"drop_not_full"} ELSE {}))

RECURSIVE DropN(_, _)
DropN(o, n) == IF n = 0 THEN o ELSE DropN(DropOne(o), n - 1)

DropEv(m, e) ==
  IF e.n < 1 THEN {Out(m, {"drop_count"})}
  ELSE ({DropN(a, e.n) : a \in Ahead(m)})

\* a batch of the spans ids is taken; whether it may be taken at all
Take(o, ids) ==
  LET m == o.m
      new == SeqToSet(ids)
      rest == SelectSeq(m.waiting, LAMBDA x : x \notin new)
      newest == IF Len(ids) \in 1..Len(m.at) THEN m.at[Len(ids)] ELSE 0
      early == /\ ~m.closed /\ Len(ids) < m.B
               /\ (m.F = 0 \/ m.now < newest + m.F)
      left == IF IsPre(ids, m.waiting) THEN Drop(m.waiting, Len(ids)) ELSE rest
  IN Out([m EXCEPT !.waiting = left, !.at = Drop(@, Len(@) - Len(left)),
                   !.inflight = ids, !.res = ""],
         o.bad \cup (IF Len(ids) > m.B \/ ids = <<>> THEN {"batch_size"} ELSE {})
               \cup (IF m.inflight # <<>> THEN {"overlap"} ELSE {})
               \cup (IF ~IsPre(ids, m.waiting) THEN {"order"} ELSE {})
               \cup (IF new \subseteq SeqToSet(m.waiting) /\ Cardinality(new) = Len(ids)
                     THEN {} ELSE {"dup_or_alien"})
               \cup (IF early THEN {"early_flush"} ELSE {}))

Send(m, e) == ({Take(a, e.ids) : a \in Ahead(m)})

\* the agent (the driver) decided the fate of the batch in flight
Result(m, e) == {Out([m EXCEPT !.res = e.r], IF m.inflight = <<>> \/ m.res # "" THEN {"result"} ELSE {})}

Settled(m) == [m EXCEPT !.inflight = <<>>, !.res = "", !.at = [i \in DOMAIN @ |-> Max2(@[i], m.now)]]

Count(m, e, r) ==
  LET addN(x) == IF r = "ok" THEN [x EXCEPT !.okN = @ + e.n] ELSE [x EXCEPT !.errN = @ + e.n] IN
  IF m.inflight # <<>>
  THEN {Out(addN(Settled(m)),
            (IF e.n # Len(m.inflight) THEN {"count"} ELSE {}) \cup
            (IF m.res # r THEN {"count_kind"} ELSE {}))}
  ELSE IF r = "err" /\ e.poison # {} /\ e.n >= 1
  THEN \* a batch that could not be encoded is never seen by the agent
    ({LET n == IF e.n > Len(a.m.waiting) THEN Len(a.m.waiting) ELSE e.n
              t == Take(a, SubSeq(a.m.waiting, 1, n))
          IN Out(addN(Settled(t.m)),
                 t.bad \cup (IF n # e.n THEN {"count"} ELSE {})
                       \cup (IF e.poison \cap SeqToSet(t.m.inflight) = {} THEN {"spurious_err"} ELSE {}))
          : a \in Ahead(m)})
  ELSE {Out(addN(m), {"count"})}

Gauge(m, e) ==
  ({Out(m, IF \E a \in Ahead(m) :
                    a.bad = {} /\ (e.v = Len(a.m.waiting) \/ (a.m.closed /\ e.v = Len(a.m.waiting) + 1))
               THEN {} ELSE {"gauge"})})

CloseDone(m, e) ==
  ({LET x == a.m IN
        Out([x EXCEPT !.pend = @ \ {e.id}],
            a.bad \cup (IF x.waiting # <<>> \/ x.inflight # <<>> \/ ~x.closed THEN {"close_early"} ELSE {})
                  \cup (IF e.id \notin m.pend THEN {"close_twice"} ELSE {})
                  \cup (IF e.failed THEN {"close_exc"} ELSE {}))
        : a \in {a \in Ahead(m) : \A i \in 1..Len(a.m.inbox) : a.m.inbox[i] # [k |-> "close", id |-> e.id]}})

\* nothing is left to do at this time
Idle(m, e) ==
  LET a == AcceptN(Out(m, {}), Len(m.inbox))
      x == a.m
      free == x.inflight = <<>>
  IN {Out(x, a.bad
       \cup (IF x.res # "" THEN {"count_missing"} ELSE {})
       \cup (IF free /\ Len(x.waiting) >= x.B THEN {"stuck_full"} ELSE {})
       \cup (IF free /\ x.waiting # <<>> /\ x.F > 0 /\ x.now >= x.at[Len(x.at)] + x.F /\ ~x.closed
             THEN {"late_flush"} ELSE {})
       \cup (IF free /\ x.closed /\ x.waiting # <<>> THEN {"close_lost"} ELSE {})
       \cup (IF free /\ x.closed /\ x.pend # {} THEN {"close_hang"} ELSE {}))}

\* the loop has looked at the span e.id by now
Seen(m, e) ==
  {a \in Ahead(m) : \A i \in 1..Len(a.m.inbox) : a.m.inbox[i] # [k |-> "span", id |-> e.id]}

Tick(m, e) == {Out([m EXCEPT !.now = e.t], IF m.inbox # <<>> THEN {"tick"} ELSE {})}

\* after the final close: every span must have met its fate
End(m, e) ==
  {Out(m, (IF m.waiting # <<>> \/ m.inflight # <<>> \/ m.inbox # <<>> THEN {"lost"} ELSE {}) \cup
          (IF m.okN + m.errN + m.dropN # e.reported THEN {"total"} ELSE {}))}

Step(m, e) ==
  CASE e.k = "report"    -> Report(m, e)
    [] e.k = "close"     -> Close(m, e)
    [] e.k = "drop"      -> DropEv(m, e)
    [] e.k = "send"      -> Send(m, e)
    [] e.k = "result"    -> Result(m, e)
    [] e.k = "ok"        -> Count(m, [e EXCEPT !.poison = SeqToSet(@)], "ok")
    [] e.k = "err"       -> Count(m, [e EXCEPT !.poison = SeqToSet(@)], "err")
    [] e.k = "gauge"     -> Gauge(m, e)
    [] e.k = "closedone" -> CloseDone(m, e)
    [] e.k = "idle"      -> Idle(m, e)
    [] e.k = "seen"      -> Seen(m, e)
    [] e.k = "tick"      -> Tick(m, e)
    [] e.k = "end"       -> End(m, e)
    [] OTHER             -> {Out(m, {e.k})}     \* "loop_exc", "garbage", ...: never allowed
=============================================================================
