------------------------------- MODULE WireDesign -------------------------------
(* How ids and integers travel: 64-bit fields are signed on the wire, the        *)
(* receiver puts the halves together again.  Bug names a flaw.                   *)
EXTENDS Wire, TLC, Json
CONSTANTS Bug
N(d, n) == [i \in 1..n |-> d]
Mags == {<<>>, <<1>>, <<7>> \o N(15, 15), <<8>> \o Zeros(15), <<8>> \o Zeros(14) \o <<1>>, N(15, 16), <<1>> \o Zeros(16),
         <<1>> \o Zeros(15) \o <<1>>, <<8>> \o Zeros(31), N(15, 32), <<1>> \o N(0, 15) \o <<8>> \o Zeros(15),
         N(15, 16) \o Zeros(16), <<9>> \o N(3, 24)}
Negs == {TRUE, FALSE}
VARIABLES tid, int, wire, back, pc
vars == <<tid, int, wire, back, pc>>
Init == /\ tid \in Mags \ {<<>>} /\ int \in {[t |-> "i", neg |-> g, mag |-> m, s |-> <<48>>] : g \in Negs, m \in Mags}
        /\ (int.mag = <<>> => ~int.neg) /\ wire = <<>> /\ back = <<>> /\ pc = "made"
\* two's complement of 16 digits
Inv(d) == [i \in 1..Len(d) |-> 15 - d[i]]
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<>> ELSE IF d[Len(d)] = 15 THEN Append(Inc(SubSeq(d, 1, Len(d) - 1)), 0)
          ELSE [d EXCEPT ![Len(d)] = @ + 1]
Signed(d) == IF Len(d) = 16 /\ d[1] >= 8 THEN [neg |-> TRUE, mag |-> Strip0(Inc(Inv(d)))] ELSE [neg |-> FALSE, mag |-> d]
Unsigned(x) == IF x.neg THEN Strip0(Inc(Inv(Pad(x.mag, 16)))) ELSE x.mag
Send == /\ pc = "made" /\ pc' = "sent"
        /\ wire' = [lo |-> IF Bug = "nosign" THEN [neg |-> FALSE, mag |-> Low(tid)] ELSE Signed(Low(tid)),
                    hi |-> Signed(IF Bug = "nohigh" THEN <<>> ELSE High(tid)),
                    tag |-> IF Fits(int) \/ Bug = "long" THEN [t |-> T_LONG, neg |-> int.neg, mag |-> int.mag]
                            ELSE [t |-> T_STRING, neg |-> FALSE, mag |-> <<>>]]
        /\ UNCHANGED <<tid, int, back>>
Receive == /\ pc = "sent" /\ pc' = "received"
           /\ back' = Strip0(Pad(Unsigned(wire.hi), 16) \o Pad(Unsigned(wire.lo), 16))
           /\ UNCHANGED <<tid, int, wire>>
Next == Send \/ Receive
\* i64: magnitude below 2^63, or -2^63
I64(x) == Fits(x)
OnWire == pc # "made" => I64(wire.lo) /\ I64(wire.hi) /\ (wire.tag.t = T_LONG => I64(wire.tag))
SameId == pc = "received" => back = tid
Emit == pc = "received" => PrintT("@@CMD " \o ToJson([tid |-> tid, int |-> int]))
=============================================================================
