------------------------------- MODULE MetrTrace -------------------------------
(* Recorded use of a metrics factory.  hs: what each handle stands for; vs: the      *)
(* values held by Prometheus.  Values are in units of 1/8.                            *)
EXTENDS Metr, TraceLib
VARIABLES tr, l, hs, vs, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ hs = <<>> /\ vs = {}
If(c, x) == IF c THEN {x} ELSE {}
Id(g, h) == [kind |-> h.kind, name |-> h.name, labels |-> Labels(h.tags, g.label)]
Val(id) == LET S == {x.v : x \in {y \in vs : y.id = id}} IN IF S = {} THEN 0 ELSE CHOOSE v \in S : TRUE
Put(id, v) == {x \in vs : x.id # id} \cup {[id |-> id, v |-> v]}
Fn(g, kind) == IF kind \in {g.has[i] : i \in 1..Len(g.has)} THEN kind ELSE ""
UpdBad(g, e) == LET h == hs[e.h] IN
  If(e.err # "", "update_failed") \cup
  CASE g.kind = "none" -> If(e.calls # <<>>, "calls")
    [] g.kind = "legacy" -> LET v == IF h.kind = "timing" THEN e.v \div 1000 ELSE e.v
                            IN If(e.calls # (IF Fn(g, h.kind) = "" THEN <<>> ELSE <<[fn |-> h.kind, key |-> Key(h.name, h.tags), v |-> v]>>), "calls")
    [] OTHER -> {}
NewVs(g, e) == IF g.kind # "prometheus" \/ e.k # "update" \/ hs[e.h].kind = "timing" THEN vs
               ELSE LET id == Id(g, hs[e.h]) IN Put(id, IF hs[e.h].kind = "count" THEN Val(id) + e.v ELSE e.v)
ReadBad(g, e) == If(e.v # Val([kind |-> e.kind, name |-> e.name, labels |-> Labels(e.tags, g.label)]), "value")
TNext == /\ l < Len(Traces[tr].ev) /\ l' = l + 1 /\ tr' = tr
         /\ \E e \in {Traces[tr].ev[l + 1]}, g \in {Traces[tr].cfg} :
              /\ hs' = (IF e.k = "create" THEN Append(hs, e) ELSE hs)
              /\ vs' = NewVs(g, e)
              /\ bad' = Mark(bad, CASE e.k = "create" -> If(e.err # "", "create_failed") \cup If(~e.kept, "tags_changed")
                                     [] e.k = "update" -> UpdBad(g, e)
                                     [] e.k = "read" -> ReadBad(g, e)
                                     [] OTHER -> {e.k}, l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
