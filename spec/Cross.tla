---------------------------------- MODULE Cross ----------------------------------
(* Messages between crossdock services.  A value is [t |-> "null"], a text, number,   *)
(* boolean, or an object: a sequence of named values.                                 *)
EXTENDS StrLib, Integers
OptionalKeys == {"downstream", "transport", "span"}
TransportName(n) == IF n = 0 THEN <<72, 84, 84, 80>> ELSE <<84, 67, 72, 65, 78, 78, 69, 76>>
\* the JSON form: a set of named values; what is optional and absent is left out
RECURSIVE Json_(_), Plain_(_)
Json_(v) == IF v.t # "o" THEN v
  ELSE [t |-> "o", o |-> {[k |-> v.o[i].k, v |-> IF v.o[i].k = "transport" THEN [t |-> "s", s |-> TransportName(v.o[i].v.n)] ELSE Json_(v.o[i].v)]
                          : i \in {j \in 1..Len(v.o) : ~(v.o[j].k \in OptionalKeys /\ v.o[j].v.t = "null")}}]
\* any value as a set of named values
Plain_(v) == IF v.t # "o" THEN v ELSE [t |-> "o", o |-> {[k |-> v.o[i].k, v |-> Plain_(v.o[i].v)] : i \in 1..Len(v.o)}]
\* a request to join: only what is there
Request(v) == [t |-> "o", o |-> {x \in Json_(v).o : x.v.t # "null"}]
\* host:port of the agent
Default == [host |-> <<106, 97, 101, 103, 101, 114, 45, 97, 103, 101, 110, 116>>, port |-> 6831]
IsDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
Address(env) == LET p == Split(env, 58) IN
  IF Len(p) = 2 /\ IsDigits(p[2]) THEN [host |-> p[1], port |-> FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, p[2])] ELSE Default
=============================================================================
