------------------------------ MODULE ReporterGen ------------------------------
(* Environment command sequences for the real reporter, enumerated (or          *)
(* simulated) from the design: the loop runs until it is quiet between two      *)
(* commands, so that the enabled commands are those that mean something.        *)
EXTENDS Reporter, Json
CONSTANTS Depth, MaxBurst
VARIABLES hist, half
gvars == <<vars, hist, half>>
GInit == Init /\ hist = <<>> /\ half = FALSE
Internal == IF ENABLED LoopReport \/ ENABLED LoopClose THEN LoopReport \/ LoopClose
            ELSE IF ENABLED ConsumerGet THEN ConsumerGet
            ELSE IF ENABLED Submit THEN Submit ELSE CloseComplete
Quiet == ~(ENABLED LoopReport \/ ENABLED LoopClose \/ ENABLED ConsumerGet \/ ENABLED Submit \/ ENABLED CloseComplete)
Env == /\ Len(hist) < Depth
       /\ \/ \E n \in 1..MaxBurst :
                /\ next + n - 1 <= NSpans
                /\ next' = next + n
                /\ inbox' = inbox \o [i \in 1..n |-> next + i - 1]
                /\ hist' = Append(hist, "r" \o ToString(n))
                /\ half' = FALSE
                /\ UNCHANGED <<queue, putter, spans, cpc, sawStop, stopped, unfinished, closes, closeSeen,
                               closeDone, ok, err, dropped, batches, droppedBad>>
          \/ CloseCall /\ hist' = Append(hist, "c") /\ half' = FALSE
          \/ SendOk /\ hist' = Append(hist, "o") /\ half' = half
          \/ SendFail /\ hist' = Append(hist, "f") /\ half' = half
          \/ FlushTimeout /\ hist' = Append(hist, IF half THEN "h" ELSE "t") /\ half' = FALSE
          \/ ~half /\ hist' = Append(hist, "h") /\ half' = TRUE /\ UNCHANGED vars
GNext == IF Quiet THEN Env ELSE Internal /\ UNCHANGED <<hist, half>>
GSpec == GInit /\ [][GNext]_gvars
Emit == (Quiet /\ Len(hist) = Depth) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
