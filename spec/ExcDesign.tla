-------------------------------- MODULE ExcDesign --------------------------------
(* All nestings, finishes and exceptions.  A raise at depth D is caught at depth d.      *)
EXTENDS Exc, TLC, Json
CONSTANTS Len0, MaxSpans, MaxBlocks, Excs, Bug
VARIABLES s, flying, hist, recorded
vars == <<s, flying, hist, recorded>>
E0 == [k |-> "", n |-> 0, on |-> FALSE, kind |-> "", x |-> 0, d |-> 0]
None == [x |-> 0, d |-> 0]
D == Len(s.blocks)
Mutate(e) ==
  LET y == Step(s, e) IN
  CASE Bug = "finishfirst" /\ e.k = "unwind" -> LET z == Leave(s) IN [z EXCEPT !.spans[Top(s).sp].errs = y.spans[Top(s).sp].errs]
    [] Bug = "swallow" /\ e.k = "unwind" /\ ~Top(s).scope -> [s EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)]
    [] Bug = "two" /\ e.k = "unwind" /\ Top(s).scope -> [y EXCEPT !.blocks = IF Len(@) > 0 THEN SubSeq(@, 1, Len(@) - 1) ELSE @]
    [] OTHER -> y
Do(e) == s' = Mutate(e) /\ recorded' = (IF e.k = "unwind" /\ s.spans[Top(s).sp].on /\ ~s.spans[Top(s).sp].done /\ Top(s).fin
                                        THEN recorded \cup {<<Top(s).sp, e.x>>} ELSE recorded)
Init == s = S0 /\ flying = None /\ hist = <<>> /\ recorded = {}
Next == IF flying.x # 0
        THEN LET e == [E0 EXCEPT !.k = "unwind", !.x = flying.x] IN
             /\ Do(e) /\ flying' = (IF D - 1 <= flying.d THEN None ELSE flying) /\ hist' = hist
        ELSE /\ Len(hist) < Len0
             /\ \/ \E k \in {"span", "scope", "keep"}, on \in BOOLEAN, n \in 0..Len(s.spans) :
                     LET e == [E0 EXCEPT !.k = "enter", !.kind = k, !.n = n, !.on = on] IN
                     /\ D < MaxBlocks /\ (n = 0 => Len(s.spans) < MaxSpans) /\ (n # 0 => on)
                     /\ Do(e) /\ hist' = Append(hist, e) /\ flying' = flying
                \/ D > 0 /\ LET e == [E0 EXCEPT !.k = "leave"] IN Do(e) /\ hist' = Append(hist, e) /\ flying' = flying
                \/ \E n \in 1..Len(s.spans) : LET e == [E0 EXCEPT !.k = "finish", !.n = n] IN Do(e) /\ hist' = Append(hist, e) /\ flying' = flying
                \/ \E x \in Excs, d \in 0..(D - 1) : /\ hist' = Append(hist, [E0 EXCEPT !.k = "raise", !.x = x, !.d = d]) /\ flying' = [x |-> x, d |-> d]
                                                     /\ UNCHANGED <<s, recorded>>
Spec == Init /\ [][Next]_vars
Hidden == <<s, flying, recorded>>
Once == \A i, j \in 1..Len(s.rep) : i # j => s.rep[i].n # s.rep[j].n
OnlySampled == \A i \in 1..Len(s.rep) : s.spans[s.rep[i].n].on
\* an exception that leaves the block which ends a span is part of what is reported
Told == \A p \in recorded : \E i \in 1..Len(s.rep) : s.rep[i].n = p[1] /\ \E j \in 1..Len(s.rep[i].errs) : s.rep[i].errs[j] = p[2]
\* outside of all blocks no span is active
Restored == D = 0 => Active(s) = 0
Unwinds == flying.x # 0 => D > flying.d
Emit == (Len(hist) = Len0 /\ flying.x = 0) => PrintT("@@CMD " \o ToJson(hist))
=============================================================================
