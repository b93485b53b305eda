--------------------------------- MODULE MemLin ---------------------------------
(* An in-memory reporter shared by threads: the final sequence holds every span  *)
(* once, a snapshot is a prefix of it with everything reported before.            *)
(*  ev: [k |-> "call"|"ret", t, op |-> "report"|"get", id, got], cfg.final          *)
EXTENDS TraceLib
VARIABLES tr, l, bad, m
M0 == [begun |-> <<>>, ended |-> {}, known |-> <<{}, {}, {}, {}>>, rel |-> {}]
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ m = M0
Final == Traces[tr].cfg.final
SetOf(s) == {s[i] : i \in 1..Len(s)}
Pos(x) == CHOOSE i \in 1..Len(Final) : Final[i] = x
Apply(x, e) ==
  CASE e.k = "call" /\ e.op = "report" -> [x EXCEPT !.begun = Append(@, e.id), !.rel = @ \cup {<<d, e.id>> : d \in x.ended}]
    [] e.k = "call" /\ e.op = "get" -> [x EXCEPT !.known[e.t] = x.ended]
    [] e.k = "ret" /\ e.op = "report" -> [x EXCEPT !.ended = @ \cup {e.id}]
    [] OTHER -> x
Judge(x, e) ==
  IF e.k = "ret" /\ e.op = "get" THEN
    (IF Len(e.got) > Len(Final) \/ e.got # SubSeq(Final, 1, Len(e.got)) THEN {"snapshot"} ELSE {}) \cup
    (IF ~(x.known[e.t] \subseteq SetOf(e.got) /\ SetOf(e.got) \subseteq SetOf(x.begun)) THEN {"snapshot"} ELSE {})
  ELSE IF e.k \in {"deadlock", "exception"} THEN {e.k} ELSE {}
AtEnd(x) == (IF SetOf(Final) # SetOf(x.begun) \/ Len(Final) # Len(x.begun) THEN {"memory"}
             ELSE IF \E p \in x.rel : Pos(p[1]) > Pos(p[2]) THEN {"memory_order"} ELSE {})
TNext == /\ l < Len(Traces[tr].ev)
         /\ l' = l + 1 /\ tr' = tr
         /\ \E x \in {Apply(m, Traces[tr].ev[l + 1])} :
              m' = x /\ bad' = Mark(bad, Judge(x, Traces[tr].ev[l + 1])
                                         \cup (IF l + 1 = Len(Traces[tr].ev) THEN AtEnd(x) ELSE {}), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
