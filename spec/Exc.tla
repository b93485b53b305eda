---------------------------------- MODULE Exc -----------------------------------
(* Blocks of spans and scopes ("with"), nested, left normally and by exceptions.      *)
(* A block: span sp, scope (it makes its span active), fin (leaving it finishes the    *)
(* span).  A span: on (sampled), errs (errors recorded), done; rep: what was reported,  *)
(* with the errors recorded until then.                                                  *)
EXTENDS Naturals, Sequences
S0 == [blocks |-> <<>>, spans |-> <<>>, rep |-> <<>>]
Top(s) == s.blocks[Len(s.blocks)]
Pop(s) == [s EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)]
Finish(s, n) == IF ~s.spans[n].on \/ s.spans[n].done THEN s
                ELSE [s EXCEPT !.spans[n].done = TRUE, !.rep = Append(@, [n |-> n, errs |-> s.spans[n].errs])]
Leave(s) == IF Top(s).fin THEN Pop(Finish(s, Top(s).sp)) ELSE Pop(s)
Scopes(s) == SelectSeq(s.blocks, LAMBDA b : b.scope)
Active(s) == LET k == Scopes(s) IN IF k = <<>> THEN 0 ELSE k[Len(k)].sp
\* e.k = "enter": a new span (n = 0) or span n again; "span" blocks always finish
Step(s, e) ==
  CASE e.k = "enter" -> LET n == IF e.n = 0 THEN Len(s.spans) + 1 ELSE e.n
                            x == IF e.n = 0 THEN [s EXCEPT !.spans = Append(@, [on |-> e.on, errs |-> <<>>, done |-> FALSE])] ELSE s
                        IN [x EXCEPT !.blocks = Append(@, [sp |-> n, scope |-> e.kind # "span", fin |-> e.kind # "keep"])]
    [] e.k = "finish" -> Finish(s, e.n)
    [] e.k = "leave" -> Leave(s)
    \* one block is left by an exception
    [] e.k = "unwind" -> Leave([s EXCEPT !.spans[Top(s).sp].errs = IF s.spans[Top(s).sp].on THEN Append(@, e.x) ELSE @])
    [] OTHER -> s
=============================================================================
