------------------------------ MODULE MC_NatKey -----------------------------
(* The natural orderings are total preorders on all short names, and agree   *)
(* with integer order on indexed families.                                   *)
EXTENDS NatKey
CONSTANT MaxLen
Alpha == {97, 95, 48, 49, 50}
VARIABLES a, b, c
Names == UNION {[1..k -> Alpha] : k \in 0..MaxLen}
Init == a \in Names /\ b \in Names /\ c = <<97>>
Next == c = <<97>> /\ c' \in {<<97>> \o <<49>>, <<97>> \o <<50>>, <<48, 97>>, <<95>>, <<>>} /\ UNCHANGED <<a, b>>
Laws == \A h \in {"nat", "rev"} :
   /\ Cmp(h, a, a, <<>>) = 0
   /\ Cmp(h, a, b, <<>>) = -Cmp(h, b, a, <<>>)
   /\ (Cmp(h, a, b, <<>>) <= 0 /\ Cmp(h, b, c, <<>>) <= 0) => Cmp(h, a, c, <<>>) <= 0
Nums == \A i, j \in {0, 1, 2, 9, 10, 11, 100} :
   LET D(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<49, 48, 48>> IN
   (i < j) <=> Cmp("nat", <<97>> \o D(i), <<97>> \o D(j), <<>>) < 0
=============================================================================
