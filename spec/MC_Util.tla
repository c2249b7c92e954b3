------------------------------- MODULE MC_Util -------------------------------
(* The equations of the general utilities, for all small inputs; shapes of    *)
(* generated graphs.                                                           *)
EXTENDS Util, Graphs
CONSTANTS W, MaxTotal
VARIABLE x
Next == UNCHANGED x
\* integers below 2^len are exactly the bit lists of that length, in order
ASSUME \A len \in 0..W : \A n \in 0..(2^len - 1) : Len(BitsOf(n, len)) = len /\ FromBits(BitsOf(n, len)) = n
ASSUME \A len \in 0..W : Cardinality({BitsOf(n, len) : n \in 0..(2^len - 1)}) = 2^len
ASSUME \A len \in 1..W : \A n \in 0..(2^len - 2) :
         LET a == BitsOf(n, len) b == BitsOf(n + 1, len) IN
         \E i \in 1..len : (\A j \in 1..(i-1) : a[j] = b[j]) /\ a[i] < b[i]
\* every total can be apportioned; shares are within one of the exact share, and equal weights differ by at most one
Vecs == {v \in [1..3 -> 0..4] : v[1] + v[2] + v[3] > 0}
Outs(v, t) == {r \in [1..3 -> 0..t] : ApportionOk(v, t, r)}
\* (one state per vector and total)
Init == x \in Vecs \X (0..MaxTotal)
Apportionable ==
         LET v == x[1] t == x[2] R == Outs(v, t) IN R # {} /\ \A r \in R : \A i, j \in 1..3 :
           (v[i] = v[j] => r[i] - r[j] \in {-1, 0, 1}) /\ (v[i] > v[j] => r[i] >= r[j]) /\ (v[i] = 0 => r[i] = 0)
\* matching up to a phase is an equivalence on the Clifford+T matrices of one qubit and finer than nothing: it separates X, Y, Z, H, S, T
h == <<1, 0, 0, 0, 1, 0>>
MX == <<<<RZero, ROne>>, <<ROne, RZero>>>>
MZ == <<<<ROne, RZero>>, <<RZero, RNeg(ROne)>>>>
MY == <<<<RZero, RNeg(RI)>>, <<RI, RZero>>>>
MI == <<<<ROne, RZero>>, <<RZero, ROne>>>>
MS == <<<<ROne, RZero>>, <<RZero, RI>>>>
Base == {MX, MY, MZ, MI, MS}
Sc(c, A) == [i \in 1..2 |-> [j \in 1..2 |-> RMul(c, A[i][j])]]
ASSUME \A A, B \in Base : SameUpToPhase(A, B) <=> A = B
ASSUME \A A \in Base, c \in {RI, RNeg(ROne), RNeg(RI)} : SameUpToPhase(A, Sc(c, A)) /\ SameUpToPhase(Sc(c, A), A) /\ IsUnitaryM(Sc(c, A))
ASSUME \A A, B \in Base : SameUpToPhase(MatMul(A, B), MatMul(B, A))    \* they commute up to a phase ...
         \/ {A, B} \cap {MS} # {}                                      \* ... except for S
\* the shapes have the number of edges they are known for
G(name, n, a, b) == [name |-> name, n |-> n, a |-> a, b |-> b, prob |-> 0, p16 |-> 0]
AsSeq(E) == [i \in 1..Cardinality(E) |-> LET p == SetToSeq(E)[i] IN <<CHOOSE u \in p : \A v \in p : u <= v, CHOOSE u \in p : \A v \in p : v <= u, "w">>]
Graphs3 == {E \in SUBSET Complete(4) : TRUE}
ASSUME \A g \in {G("complete", 4, 0, 0), G("regular", 4, 2, 0), G("regular", 4, 1, 0), G("caveman", 0, 2, 2), G("caveman", 0, 1, 4), G("ladder", 0, 2, 0), G("barbell", 0, 2, 0)} :
         (\E E \in Graphs3 : Shape(g, AsSeq(E))) /\ (\A E \in Graphs3 : Shape(g, AsSeq(E)) => Cardinality(E) = EdgeCount(g)) /\ Cardinality(Nodes(g)) = 4 
=============================================================================
