------------------------------ MODULE CodecDesign ------------------------------
(* Contexts of a small domain are written to a carrier, which is passed on as   *)
(* it is or damaged, and read again.  Bug names a flaw that must be refuted.    *)
EXTENDS Codec, TLC, Json
CONSTANTS Fmt, Bug, Emitting
Ids == {<<15, 0, 10>>, <<8>> \o Zeros(15), [i \in 1..16 |-> 15]}
Wide == Ids \cup {<<1>> \o Zeros(16), [i \in 1..32 |-> 14], <<9>> \o Zeros(20) \o <<1>>}
Parents == {<<>>, <<7>>, [i \in 1..16 |-> 15]}
Vals == {<<>>, <<97>>, <<97, 32, 37, 61, 44>>, <<233, 19990, 128512>>, <<37, 52, 49>>}
Bags == {{}} \cup {{<<<<107>>, v>>} : v \in Vals} \cup {{<<<<107>>, <<49>>>>, <<<<120, 45, 121>>, v>>} : v \in Vals}
Ctxs == [tid : Wide, sid : Ids, pid : Parents, fl : {0, 1, 3, 255}, bag : Bags]
TName == <<84, 114, 95, 73, 100>>
Cfg == [tname |-> TName, prefix |-> <<67, 95>>, dname |-> <<100>>, bname |-> <<98>>, wide |-> FALSE]
VARIABLES ctx, wire, got, dmg, pc
vars == <<ctx, wire, got, dmg, pc>>
Init == ctx \in Ctxs /\ wire = <<>> /\ got = <<>> /\ dmg = "no" /\ pc = "start"
Order(S) == SetToSeq(S)
Write == CASE Fmt = "binary" -> IF Bug = "low64" THEN BinInject([ctx EXCEPT !.tid = Strip0(Pad(@, 16))], Order(ctx.bag))
                                ELSE BinInject(ctx, Order(ctx.bag))
           [] Fmt = "zipkin" -> [tid |-> ctx.tid, sid |-> ctx.sid, pid |-> ctx.pid, fl |-> ctx.fl]
           [] Fmt = "b3" -> Order(B3Inject(Cfg, ctx))
           [] OTHER -> Order(TextInject(Cfg, Fmt = "http" /\ Bug # "noquote", ctx))
Inject == pc = "start" /\ wire' = Write /\ pc' = "sent" /\ UNCHANGED <<ctx, got, dmg>>
Damage == /\ pc = "sent" /\ dmg = "no" /\ Fmt # "zipkin" /\ dmg' = "yes"
          /\ \/ Fmt = "binary" /\ \E n \in {0, 1, 36, 37, 38, Len(wire) - 1} : n <= Len(wire) /\ wire' = SubSeq(wire, 1, n) /\ n > 0
             \/ Fmt # "binary" /\ \E i \in 1..Len(wire), v \in {<<>>, <<48>>, <<103>>, <<58, 58, 58>>, [j \in 1..33 |-> 49]} :
                                   wire' = [wire EXCEPT ![i].v = v]
          /\ wire' # wire
          /\ UNCHANGED <<ctx, got, pc>>
Read == pc = "sent" /\ pc' = "read" /\ got' = <<Extract(Cfg, Fmt, wire)>> /\ UNCHANGED <<ctx, wire, dmg>>
Next == Inject \/ Damage \/ Read
RoundTrip == pc = "read" /\ dmg = "no" =>
  LET s == Sent(Fmt, ctx) g == got[1] IN
  g.st = "ctx" /\ [tid |-> g.ctx.tid, sid |-> g.ctx.sid, pid |-> g.ctx.pid, fl |-> g.ctx.fl, bag |-> g.ctx.bag] = s
\* whatever the carrier, the result is a context with ids in range, nothing, or a rejection
Sound == pc = "read" => /\ got[1].st \in {"none", "ctx", "bad", "odd"}
                       /\ (got[1].st = "ctx" => FitsTrace(got[1].ctx.tid) /\ FitsId(got[1].ctx.sid) /\ FitsId(got[1].ctx.pid))
Emit == (Emitting /\ pc = "read" /\ (dmg = "yes" \/ Len(ctx.tid) # 3)) =>
          PrintT("@@CMD " \o ToJson([ctx |-> [ctx EXCEPT !.bag = Order(@)], wire |-> wire, dmg |-> dmg]))
=============================================================================
