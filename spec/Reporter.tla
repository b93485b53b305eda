------------------------------- MODULE Reporter --------------------------------
(* The design of the remote reporter, structured like the implementation:      *)
(* application threads hand spans to callbacks of the event loop; a callback   *)
(* puts the span into a bounded queue or drops it; one consumer coroutine      *)
(* assembles batches, sends them and acknowledges them to the queue; close     *)
(* sets the stop flag, puts a stop marker into the queue (waiting for room)    *)
(* and waits until every queued item was acknowledged.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NSpans, NCloses, Q, B, Flush, Bug
\* Flush: a flush interval is configured.  Bug: "" or the name of a design mutation.

STOP == 0
VARIABLES next,      \* id of the next span to report
          inbox,     \* callbacks of the loop: span ids, or STOP for a close request
          queue, putter, \* items of the queue; whether a put of STOP waits for room
          spans,     \* batch being assembled, or in flight
          cpc,       \* consumer: "get", "sending", "exited"
          sawStop,
          stopped, unfinished,
          closes,    \* number of close() calls
          closeSeen, \* number of close requests the loop has seen
          closeDone, \* number of completed close futures
          ok, err, dropped, batches, droppedBad
vars == <<next, inbox, queue, putter, spans, cpc, sawStop, stopped, unfinished, closes, closeSeen, closeDone,
          ok, err, dropped, batches, droppedBad>>

Init == /\ next = 1 /\ inbox = <<>> /\ queue = <<>> /\ putter = FALSE /\ spans = <<>> /\ cpc = "get"
        /\ sawStop = FALSE /\ stopped = FALSE /\ unfinished = 0 /\ closes = 0 /\ closeSeen = 0
        /\ closeDone = 0 /\ ok = {} /\ err = {} /\ dropped = {} /\ batches = <<>> /\ droppedBad = FALSE

SetOf(s) == {s[i] : i \in 1..Len(s)}

Report == /\ next <= NSpans
          /\ inbox' = Append(inbox, next) /\ next' = next + 1
          /\ UNCHANGED <<queue, putter, spans, cpc, sawStop, stopped, unfinished, closes, closeSeen, closeDone,
                         ok, err, dropped, batches, droppedBad>>

CloseCall == /\ closes < NCloses
             /\ closes' = closes + 1 /\ inbox' = Append(inbox, STOP)
             /\ UNCHANGED <<next, queue, putter, spans, cpc, sawStop, stopped, unfinished, closeSeen, closeDone,
                            ok, err, dropped, batches, droppedBad>>

\* put_nowait of a span
LoopReport ==
  /\ inbox # <<>> /\ Head(inbox) # STOP
  /\ inbox' = Tail(inbox)
  /\ IF stopped \/ Len(queue) >= Q
     THEN /\ dropped' = dropped \cup {Head(inbox)}
          /\ UNCHANGED <<queue, unfinished>>
          /\ droppedBad' = (droppedBad \/ (~stopped /\ Len(queue) < Q))
     ELSE /\ queue' = Append(queue, Head(inbox)) /\ unfinished' = unfinished + 1
          /\ UNCHANGED <<dropped, droppedBad>>
  /\ UNCHANGED <<next, putter, spans, cpc, sawStop, stopped, closes, closeSeen, closeDone, ok, err, batches>>

\* the first part of close on the loop: stop flag, put of the marker
LoopClose ==
  /\ inbox # <<>> /\ Head(inbox) = STOP
  /\ inbox' = Tail(inbox)
  /\ closeSeen' = closeSeen + 1
  /\ stopped' = TRUE
  /\ IF stopped /\ Bug # "secondstop" THEN UNCHANGED <<queue, putter, unfinished>>
     ELSE IF Len(queue) < Q THEN /\ queue' = Append(queue, STOP) /\ unfinished' = unfinished + 1
                                 /\ UNCHANGED putter
     ELSE IF Bug = "stopnowait" THEN UNCHANGED <<queue, putter, unfinished>>
     ELSE putter' = TRUE /\ UNCHANGED <<queue, unfinished>>
  /\ UNCHANGED <<next, spans, cpc, sawStop, closes, closeDone, ok, err, dropped, batches, droppedBad>>

\* the consumer gets one item; a waiting put moves up
ConsumerGet ==
  /\ cpc = "get" /\ queue # <<>> /\ Len(spans) < B
  /\ LET q == IF putter THEN Append(Tail(queue), STOP) ELSE Tail(queue)
         u == IF putter THEN unfinished + 1 ELSE unfinished
     IN /\ queue' = q
        /\ putter' = FALSE
        /\ IF Head(queue) = STOP
           THEN /\ sawStop' = TRUE /\ unfinished' = u - 1
                /\ UNCHANGED spans
                /\ cpc' = IF spans = <<>> \/ Bug = "stoploses" THEN "exited" ELSE "submit"
           ELSE /\ spans' = Append(spans, Head(queue))
                /\ unfinished' = u
                /\ cpc' = IF Len(spans) + 1 = B THEN "submit" ELSE "get"
                /\ UNCHANGED sawStop
  /\ UNCHANGED <<next, inbox, stopped, closes, closeSeen, closeDone, ok, err, dropped, batches, droppedBad>>

FlushTimeout ==
  /\ Flush /\ cpc = "get" /\ spans # <<>> /\ queue = <<>>
  /\ cpc' = "submit"
  /\ UNCHANGED <<next, inbox, queue, putter, spans, sawStop, stopped, unfinished, closes, closeSeen, closeDone,
                 ok, err, dropped, batches, droppedBad>>

Submit ==
  /\ cpc = "submit"
  /\ cpc' = "sending" /\ batches' = Append(batches, spans)
  /\ UNCHANGED <<next, inbox, queue, putter, spans, sawStop, stopped, unfinished, closes, closeSeen, closeDone,
                 ok, err, dropped, droppedBad>>

AfterSend == /\ spans' = <<>>
             /\ unfinished' = IF Bug = "ackone" THEN unfinished - 1 ELSE unfinished - Len(spans)
             /\ cpc' = IF sawStop THEN "exited" ELSE "get"
             /\ UNCHANGED <<next, inbox, queue, putter, sawStop, stopped, closes, closeSeen, closeDone, dropped,
                            batches, droppedBad>>
SendOk == cpc = "sending" /\ ok' = ok \cup SetOf(spans) /\ AfterSend /\ UNCHANGED err
SendFail == cpc = "sending" /\ err' = err \cup SetOf(spans) /\ AfterSend /\ UNCHANGED ok

\* join(): every close that the loop has seen completes
CloseComplete ==
  /\ closeDone < closeSeen /\ unfinished = 0 /\ ~putter
  /\ closeDone' = closeDone + 1
  /\ UNCHANGED <<next, inbox, queue, putter, spans, cpc, sawStop, stopped, unfinished, closes, closeSeen,
                 ok, err, dropped, batches, droppedBad>>

Next == Report \/ CloseCall \/ LoopReport \/ LoopClose \/ ConsumerGet \/ FlushTimeout \/ Submit
        \/ SendOk \/ SendFail \/ CloseComplete
Fair == /\ WF_vars(LoopReport) /\ WF_vars(LoopClose) /\ WF_vars(ConsumerGet) /\ WF_vars(FlushTimeout)
        /\ WF_vars(Submit) /\ WF_vars(SendOk \/ SendFail) /\ WF_vars(CloseComplete)
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
Ids(s) == SelectSeq(s, LAMBDA x : x # STOP)
Held == IF cpc = "sending" THEN <<>> ELSE spans
InFlight == IF cpc = "sending" THEN spans ELSE <<>>
\* every reported span is in exactly one place
Conservation ==
  LET places == <<SetOf(Ids(inbox)), SetOf(Ids(queue)), SetOf(spans), ok, err, dropped>>
  IN /\ UNION {places[i] : i \in 1..6} = 1..(next - 1)
     /\ \A i, j \in 1..6 : i < j => places[i] \cap places[j] = {}
Bounded == Len(queue) <= Q /\ Len(spans) <= B
OnlyDropWhenFull == ~droppedBad
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
InOrder == LET f == Flat(batches) IN \A i, j \in 1..Len(f) : i < j => f[i] < f[j]
\* nothing that was accepted is left behind when a close completes
CloseFlushes == closeDone > 0 => Ids(queue) = <<>> /\ spans = <<>>
CloseCompletes == \A n \in 1..NCloses : (closes = n) ~> (closeDone >= n)
EverySpanSettles == \A i \in 1..NSpans : (next > i /\ (Flush \/ closes > 0)) ~> (i \in ok \cup err \cup dropped)
=============================================================================
