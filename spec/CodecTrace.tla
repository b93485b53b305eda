------------------------------ MODULE CodecTrace ------------------------------
(* Recorded injections and extractions against the specification of carriers.   *)
EXTENDS Codec, TraceLib
VARIABLES tr, l, bad
TInit == tr \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Judge(cfg, e) == CASE e.k = "inject" -> InjectBad(cfg, e)
                   [] e.k = "extract" -> ExtractBad(cfg, e)
                   [] e.k = "wrong" -> IF e.raised \in {"InvalidCarrierException", "UnsupportedFormatException", "ValueError"}
                                       THEN {} ELSE {"wrong_type"}
TNext == /\ l < Len(Traces[tr].ev)
         /\ l' = l + 1 /\ tr' = tr
         /\ bad' = Mark(bad, Judge(Traces[tr].cfg, Traces[tr].ev[l + 1]), l + 1)
TEnd == l = Len(Traces[tr].ev) => PrintT("@@END " \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
