---------------------------------- MODULE Agent ----------------------------------
(* The channel to the agent: requests over HTTP, and a buffer that is sent as one    *)
(* datagram per flush.                                                               *)
EXTENDS StrLib, Integers
\* one argument of a query: percent encoding in which + is a space
Arg(s) == PctDec([i \in 1..Len(s) |-> IF s[i] = 43 THEN 32 ELSE s[i]])
HasEq(s) == \E i \in 1..Len(s) : s[i] = 61
EqAt(s) == CHOOSE i \in 1..Len(s) : s[i] = 61 /\ \A j \in 1..(i - 1) : s[j] # 61
Pair(s) == [k |-> Arg(SubSeq(s, 1, EqAt(s) - 1)), v |-> Arg(Drop(s, EqAt(s)))]
Query(s) == LET ps == Split(s, 38) IN IF \E i \in 1..Len(ps) : ~HasEq(ps[i]) THEN <<>> ELSE [i \in 1..Len(ps) |-> Pair(ps[i])]
Plainly(s) == [ok |-> TRUE, s |-> s]
ServiceT == <<115, 101, 114, 118, 105, 99, 101>>
UuidT == <<117, 117, 105, 100>>
OpsT == <<111, 112, 101, 114, 97, 116, 105, 111, 110, 115>>
SamplingPath == <<47, 115, 97, 109, 112, 108, 105, 110, 103>>
CreditsPath == <<47, 99, 114, 101, 100, 105, 116, 115>>
Args(ps) == [i \in 1..Len(ps) |-> [k |-> Plainly(ps[i][1]), v |-> Plainly(ps[i][2])]]
SamplingArgs(service) == Args(<<<<ServiceT, service>>>>)
CreditsArgs(service, uuid, ops) == Args(<<<<ServiceT, service>>, <<UuidT, uuid>>>> \o [i \in 1..Len(ops) |-> <<OpsT, ops[i]>>])
\* the order matters only among the values of one name
KeysOf(a) == {a[i].k : i \in 1..Len(a)}
ValuesOf(a, k) == SelectSeq(a, LAMBDA p : p.k = k)
SameArgs(a, b) == KeysOf(a) = KeysOf(b) /\ \A k \in KeysOf(a) : ValuesOf(a, k) = ValuesOf(b, k)
=============================================================================
