---------------------------------- MODULE Addr ----------------------------------
(* The address of this machine: what its name resolves to, if that is not a loopback *)
(* address; otherwise that of its first network interface, otherwise that of a       *)
(* socket to the outside.  "" stands for failure.                                     *)
EXTENDS Naturals, Sequences
Interfaces == <<"eth0", "eth1", "eth2", "en0", "en1", "en2", "wlan0", "wlan1", "wlan2">>
Loopback(a) == Len(a) >= 4 /\ SubSeq(a, 1, 4) = <<49, 50, 55, 46>>
Up(g) == {i \in 1..Len(Interfaces) : Interfaces[i] \in DOMAIN g.interfaces}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Ip(g) == LET a == IF g.named = <<>> THEN g.localhost ELSE g.named IN
         IF a # <<>> /\ ~Loopback(a) THEN a
         ELSE IF Up(g) # {} THEN g.interfaces[Interfaces[First(Up(g))]] ELSE g.outside
=============================================================================
