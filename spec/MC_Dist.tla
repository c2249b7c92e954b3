------------------------------ MODULE MC_Dist --------------------------------
(* The algorithm representing a distribution by n outcomes, with its random  *)
(* choices left open: round every share, then add or remove outcomes drawn   *)
(* with weight distance-to-integer, redrawing what cannot be removed.        *)
EXTENDS Meas
CONSTANTS K, W, MaxN
VARIABLES w, n, c, pc, todo, gone
vars == <<w, n, c, pc, todo, gone>>
Idx == 1..K
Half(x) == LET q == x \div W  r == x % W IN IF 2*r < W THEN q ELSE IF 2*r > W THEN q+1 ELSE IF q % 2 = 0 THEN q ELSE q+1
Frac(i) == (w[i]*n) % W # 0          \* positive weight in the correction draw
Init == /\ w \in {f \in [Idx -> 0..W] : SumF(LAMBDA i: f[i], Idx) = W}
        /\ n \in 0..MaxN /\ c = [i \in Idx |-> 0] /\ pc = "round" /\ todo = 0 /\ gone = {}
Total == SumF(LAMBDA i: c[i], Idx)
Round == /\ pc = "round" /\ c' = [i \in Idx |-> Half(w[i]*n)]
         /\ todo' = n - SumF(LAMBDA i: Half(w[i]*n), Idx) /\ pc' = "fix" /\ UNCHANGED <<w, n, gone>>
AddOne == pc = "fix" /\ todo > 0 /\ \E i \in Idx : Frac(i) /\ c' = [c EXCEPT ![i] = @ + 1] /\ todo' = todo - 1 /\ UNCHANGED <<w, n, pc, gone>>
\* a draw that cannot be honoured is redrawn among the others
Redraw == pc = "fix" /\ todo < 0 /\ \E i \in Idx \ gone : Frac(i) /\ c[i] = 0 /\ gone' = gone \cup {i} /\ UNCHANGED <<w, n, c, pc, todo>>
DelOne == pc = "fix" /\ todo < 0 /\ \E i \in Idx : Frac(i) /\ c[i] > 0 /\ c' = [c EXCEPT ![i] = @ - 1] /\ todo' = todo + 1 /\ UNCHANGED <<w, n, pc, gone>>
Done == pc = "fix" /\ todo = 0 /\ pc' = "done" /\ UNCHANGED <<w, n, c, todo, gone>>
Next == Round \/ AddOne \/ Redraw \/ DelOne \/ Done
Repr == pc = "done" => RepOK([i \in Idx |-> w[i]], n, W, [i \in Idx |-> c[i]])
NeverStuck == pc # "done" => ENABLED Next
\* distances on the same weights against a second distribution
D(f) == [i \in Idx |-> <<BitsBE(i-1, 2), f[i]>>]
Others == {f \in [Idx -> 0..W] : SumF(LAMBDA i: f[i], Idx) = W}
MmdLaws == pc = "round" /\ n = 0 => \A u \in Others :
   LET v == Mmd(D(w), D(u), <<1>>, 9) IN v >= 0 /\ v = Mmd(D(u), D(w), <<1>>, 9) /\ (v = 0 <=> w = u)
P2(f) == \A i \in Idx : f[i] \in {0, 1, 2, 4, 8}
LikelihoodLaws == pc = "round" /\ n = 0 /\ P2(w) => \A u \in {f \in Others : P2(f)} :
   /\ JSD2(D(w), D(u), W, 10) = JSD2(D(u), D(w), W, 10)
   /\ NLL(D(w), D(u), W, 10) >= NLL(D(w), D(w), W, 10)      \* Gibbs
=============================================================================
