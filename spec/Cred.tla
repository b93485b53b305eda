---------------------------------- MODULE Cred ----------------------------------
(* The credits of the throttler.  c: function from the operations that are known   *)
(* to their credit; one debug span costs One.                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Known(c, op) == op \in DOMAIN c
Credit(c, op) == IF Known(c, op) THEN c[op] ELSE 0
May(c, op, one) == Credit(c, op) >= one
Set1(c, op, v) == (op :> v) @@ c
AfterAsk(c, op, one) == Set1(c, op, IF May(c, op, one) THEN Credit(c, op) - one ELSE Credit(c, op))
AfterResp(c, e) == IF e.kind = "credit" THEN FoldLeft(LAMBDA x, b : Set1(x, b.op, Credit(x, b.op) + b.n), c, e.ops) ELSE c
NoCredit == [op \in {} |-> 0]
=============================================================================
