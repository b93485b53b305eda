------------------------------ MODULE IdsDesign ------------------------------
(* Drawing ids: a trace id of TraceBits for every new trace, a span id of SpanBits *)
(* for every span, zero is drawn again.  A source of random numbers never repeats   *)
(* a number (that is what a random generator gives with overwhelming probability),  *)
(* but may well return 0.  Bug names a mutated design.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceBits, SpanBits, MaxSpans, Bug
VARIABLES used, spans, want, got, hist
vars == <<used, spans, want, got, hist>>
View == <<used, spans, want, got>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bits(w) == CASE w = "trace" -> TraceBits [] w = "span" -> IF Bug = "wide" THEN TraceBits ELSE SpanBits [] OTHER -> 0
Init == used = {} /\ spans = <<>> /\ want = <<>> /\ got = <<>> /\ hist = <<>>
\* a span is started: a root, or a child of span i
Root == /\ want = <<>> /\ got = <<>> /\ Len(spans) < MaxSpans /\ want' = <<"trace", "span">> /\ got' = <<>>
        /\ hist' = Append(hist, <<"root">>) /\ UNCHANGED <<used, spans>>
Child(i) == /\ want = <<>> /\ got = <<>> /\ Len(spans) < MaxSpans /\ i \in 1..Len(spans) /\ want' = <<"span">>
            /\ got' = <<spans[i].trace>> /\ hist' = Append(hist, <<"child", i>>) /\ UNCHANGED <<used, spans>>
Draw == /\ want # <<>>
        /\ \E n \in 0..(Pow2(Bits(Head(want))) - 1) :
             /\ n \notin used
             /\ IF n = 0 /\ Bug # "zero" THEN UNCHANGED <<used, want, got>>
                ELSE /\ used' = (IF n = 0 THEN used ELSE used \cup {n}) /\ want' = Tail(want)
                     /\ got' = Append(got, IF Bug = "same" /\ got # <<>> THEN got[1] ELSE n)
        /\ UNCHANGED <<spans, hist>>
Made == /\ want = <<>> /\ Len(got) = 2 /\ spans' = Append(spans, [trace |-> got[1], span |-> got[2]]) /\ got' = <<>>
        /\ UNCHANGED <<used, want, hist>>
Next == Root \/ (\E i \in 1..MaxSpans : Child(i)) \/ Draw \/ Made
NonZero == \A i \in 1..Len(spans) : spans[i].trace # 0 /\ spans[i].span # 0
Width == \A i \in 1..Len(spans) : spans[i].trace < Pow2(TraceBits) /\ spans[i].span < Pow2(SpanBits)
Fresh == \A i, j \in 1..Len(spans) : i # j => spans[i].span # spans[j].span
NotDerived == \A i \in 1..Len(spans) : spans[i].span # spans[i].trace
Emit == (Len(spans) = MaxSpans) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
