------------------------------- MODULE ProbDesign -------------------------------
(* The decision of the probabilistic sampler on ids of one hexadecimal digit (in  *)
(* the place of the 64 low bits) and rates in 1/256: the share is the rate, and   *)
(* a trace sampled at some rate is sampled at every higher one.                   *)
EXTENDS Samp
CONSTANTS Bug
VARIABLES hi, d, r, yes
\* the low part is the first digit of 16, the others zero
Tid(h, x) == Strip0(<<h>> \o <<x>> \o Zeros(15))
P(k) == [one |-> k = 256, f |-> <<k \div 16, (k % 16)>>, tok |-> ""]
Dec(h, x, k) == CASE Bug = "le" -> ~LexLess(<<k \div 16, k % 16>>, <<x, 0>>)
                  [] Bug = "high" -> Below(Tid(x, h), P(k))
                  [] OTHER -> Below(Tid(h, x), P(k))
Init == hi \in {0, 7, 15} /\ d \in 0..15 /\ r \in 0..256 /\ yes = Dec(hi, d, r)
Next == UNCHANGED <<hi, d, r, yes>>
Share == Cardinality({x \in 0..15 : Dec(hi, x, r)}) = (r + 15) \div 16
Monotone == yes => \A k \in {r + 1, r + 16, 256} : k <= 256 => Dec(hi, d, k)
LowBits == yes = Dec(0, d, r)
Extremes == (r = 0 => ~yes) /\ (r = 256 => yes)
=============================================================================
