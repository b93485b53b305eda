------------------------------- MODULE FanTrace -------------------------------
(* Recorded runs of composite and local reporters.  The state is the sequence of *)
(* calls made so far; everything that a leaf holds is a function of it.          *)
(*  cfg.leaves  kinds: "mem" "log" "null" "stub";  cfg.sync: no running loop       *)
(*  obs         what every leaf has, and the state of the futures of close          *)
EXTENDS TraceLib, Integers
VARIABLES tr, l, bad, m
M0 == [calls |-> <<>>, compl |-> {}, closes |-> 0, gone |-> {}, threw |-> FALSE]
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ m = M0
Cfg == Traces[tr].cfg
Reports(c) == LET r == SelectSeq(c, LAMBDA x : x[1] = "report") IN [i \in 1..Len(r) |-> r[i][2]]
Stubs == {i \in 1..Len(Cfg.leaves) : Cfg.leaves[i] = "stub"}
\* every part has completed the n-th close
AllOf(x, n) == \A i \in Stubs : <<i, n>> \in x.compl
\* a future whose caller no longer waits stays as it is
Done(x, n) == AllOf(x, n) /\ n \notin x.gone
Apply(x, e) ==
  CASE e.k \in {"report", "process"} -> [x EXCEPT !.calls = Append(@, <<e.k, e.n>>)]
    [] e.k = "bulk" -> [x EXCEPT !.calls = @ \o [i \in 1..e.n |-> <<"report", 999 + i>>]]
    [] e.k = "close" -> [x EXCEPT !.calls = Append(@, <<"close", 0>>), !.closes = @ + 1]
    [] e.k = "complete" -> [x EXCEPT !.compl = @ \cup {<<e.leaf, e.n>>}]
    [] e.k = "giveup" -> [x EXCEPT !.gone = @ \cup (IF AllOf(x, e.n) THEN {} ELSE {e.n})]
    [] OTHER -> x
LeafBad(x, i, o) ==
  CASE Cfg.leaves[i] = "mem" -> IF o # Reports(x.calls) THEN {"memory"} ELSE {}
    [] Cfg.leaves[i] = "log" -> IF o # Reports(x.calls) THEN {"logged"} ELSE {}
    [] Cfg.leaves[i] = "stub" -> IF o # x.calls THEN {"fan_out"} ELSE {}
    [] OTHER -> {}
DoneBad(x, d) ==
  IF Len(d) # x.closes THEN {"close_future"}
  ELSE IF \A n \in 1..Len(d) : ((d[n] = "yes") <=> Done(x, n)) /\ ((d[n] = "gone") <=> n \in x.gone) THEN {}
  ELSE IF Cfg.sync /\ \A n \in 1..Len(d) : d[n] = "yes" => AllOf(x, n) THEN {"done_without_loop"}
  ELSE {"close_done"}
Judge(x, e) == (IF e.raised # "" THEN {"raised"} ELSE {}) \cup
               (IF Len(e.obs) # Len(Cfg.leaves) THEN {"leaves"}
                ELSE UNION {LeafBad(x, i, e.obs[i]) : i \in 1..Len(e.obs)}) \cup DoneBad(x, e.done)
TNext == /\ l < Len(Traces[tr].ev)
         /\ l' = l + 1 /\ tr' = tr
         /\ \E x \in {Apply(m, Traces[tr].ev[l + 1])} :
              m' = x /\ bad' = Mark(bad, Judge(x, Traces[tr].ev[l + 1]), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
