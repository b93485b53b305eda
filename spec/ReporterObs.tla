------------------------------ MODULE ReporterObs ------------------------------
(* The design of the reporter observed by the monitor ReporterAbs: every step  *)
(* of Reporter is reported to the monitor as the event(s) that the driver      *)
(* would record, and the monitor must have an outcome without broken clauses.  *)
(* This shows that the monitor used for trace validation accepts everything    *)
(* the design can do (no false alarms), and, with Bug # "", that it rejects.   *)
EXTENDS Reporter
A == INSTANCE ReporterAbs
VARIABLE obs   \* set of monitor states that explain the events so far
T == 4         \* flush interval in ticks
OInit == Init /\ obs = {A!M0(Q, B, IF Flush THEN T ELSE 0)}
Good(S, e) == UNION {{o.m : o \in {o \in A!Step(x, e) : o.bad = {}}} : x \in S}
Ev(e) == obs' = Good(obs, e)
OReport == Report /\ Ev([k |-> "report", id |-> next, raised |-> FALSE])
OClose == CloseCall /\ Ev([k |-> "close", id |-> closes + 1, raised |-> FALSE])
OLoopReport == LoopReport /\ IF dropped' # dropped THEN Ev([k |-> "drop", n |-> 1]) ELSE UNCHANGED obs
OLoopClose == LoopClose /\ UNCHANGED obs
OGet == ConsumerGet /\ UNCHANGED obs
Now == LET x == CHOOSE x \in obs : TRUE IN x.now
Quiet == inbox = <<>> /\ cpc \in {"get", "exited"} /\ queue = <<>> /\ ~(closeDone < closeSeen /\ unfinished = 0)
\* time passes while the loop is idle, then the flush timer fires
OTimeout == /\ FlushTimeout /\ Quiet /\ obs # {}
            /\ obs' = Good(Good(obs, [k |-> "idle"]), [k |-> "tick", t |-> Now + T])
OSubmit == Submit /\ Ev([k |-> "send", ids |-> spans])
OOk == SendOk /\ obs' = Good(Good(obs, [k |-> "result", r |-> "ok"]), [k |-> "ok", n |-> Len(spans), poison |-> <<>>])
OFail == SendFail /\ obs' = Good(Good(obs, [k |-> "result", r |-> "err"]), [k |-> "err", n |-> Len(spans), poison |-> <<>>])
ODone == CloseComplete /\ Ev([k |-> "closedone", id |-> closeDone + 1, failed |-> FALSE])
OIdle == /\ Quiet /\ obs # {} /\ Now < T * (NSpans + 1)
         /\ (spans = <<>> \/ cpc = "exited" \/ ~Flush)
         /\ obs' = Good(obs, [k |-> "idle"]) /\ UNCHANGED vars
ONext == OReport \/ OClose \/ OLoopReport \/ OLoopClose \/ OGet \/ OTimeout \/ OSubmit \/ OOk \/ OFail \/ ODone \/ OIdle
OSpec == OInit /\ [][ONext]_<<vars, obs>>
Accepted == obs # {}
AllSettled == Quiet /\ next > NSpans /\ closes = NCloses /\ closeDone = closes
              => \A x \in obs : x.okN = Cardinality(ok) /\ x.errN = Cardinality(err) /\ x.dropN = Cardinality(dropped)
=============================================================================
