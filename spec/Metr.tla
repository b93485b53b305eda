---------------------------------- MODULE Metr ----------------------------------
(* Metrics: a counter, gauge or timer is identified by its name and its tags.  The   *)
(* legacy backend is told every update under a key made of both; Prometheus holds a  *)
(* value per name and label set.                                                     *)
EXTENDS StrLib, Integers
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
                ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Before(Tail(a), Tail(b))
Sorted(tags) == SortSeq(tags, LAMBDA x, y : Before(x.k, y.k))
Key(name, tags) == FoldLeft(LAMBDA a, x : a \o <<46>> \o x.k \o <<95>> \o x.v, name, Sorted(tags))
\* what a Prometheus metric is known by; label: the label "service" of all metrics, or none
ServiceT == <<115, 101, 114, 118, 105, 99, 101>>
Labels(tags, label) == {[k |-> tags[i].k, v |-> tags[i].v] : i \in {j \in 1..Len(tags) : label = <<>> \/ tags[j].k # ServiceT}}
                       \cup (IF label = <<>> THEN {} ELSE {[k |-> ServiceT, v |-> label]})
=============================================================================
