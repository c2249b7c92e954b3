------------------------------ MODULE MC_OpMat -------------------------------
(* Matrices respect the algebra: products, adjoints, the Jordan-Wigner map,   *)
(* the Pauli expansion, reversal of qubits.  The state is a pair of terms     *)
(* over n qubits (Pauli) and one fermionic product.                           *)
EXTENDS OpMat
CONSTANTS N, L
VARIABLES f, g, h
Lad == {<<m, a>> : m \in 0..(N-1), a \in {0, 1}}
Init == f = <<>> /\ g = <<>> /\ h = <<>>
GrowF == \E P \in {"X", "Y", "Z"}, q \in 0..(N-1) :
   (\A i \in 1..Len(f) : f[i][1] < q) /\ f' = Append(f, <<q, P>>) /\ UNCHANGED <<g, h>>
GrowG == \E P \in {"X", "Y", "Z"}, q \in 0..(N-1) :
   (\A i \in 1..Len(g) : g[i][1] < q) /\ g' = Append(g, <<q, P>>) /\ UNCHANGED <<f, h>>
GrowH == f = <<>> /\ g = <<>> /\ Len(h) < L /\ \E x \in Lad : h' = Append(h, x) /\ UNCHANGED <<f, g>>
Next == (h = <<>> /\ (GrowF \/ GrowG)) \/ GrowH
c1 == <<1,0,2,0,2,0>>
A == Collect(<< <<f, c1>>, <<g, RI>> >>)
B == Collect(<< <<g, RInt(3)>>, <<<<>>, RHalf>> >>)
Product == Mat("q", OMul("q", A, B), N) = MMul(Mat("q", A, N), Mat("q", B, N))
Adj == Mat("q", Adjoint("q", A), N) = Dagger(Mat("q", A, N))
Expansion == Expand(Mat("q", A, N), N) = A
Orthogonal == TrM(MMul(Mat("q", Collect(<< <<f, ROne>> >>), N), Mat("q", Collect(<< <<g, ROne>> >>), N))) = (IF f = g THEN RInt(P2(N)) ELSE RZero)
Rev == LET M == Mat("q", A, N) R == Mat("q", Reversed(A, N), N) IN
       \A i, j \in 0..(P2(N)-1) : Ent(R, RevIdx(i, N), RevIdx(j, N)) = Ent(M, i, j)
RevTwice == Reversed(Reversed(A, N), N) = A
F == Collect(<< <<h, c1>> >>)
Fermi == Mat("f", F, N) = Mat("q", JW(F), N)
FAdj == Mat("f", Adjoint("f", F), N) = Dagger(Mat("f", F, N))
FNormal == Mat("f", F, N) = Mat("f", NormalForm(F), N)
FSplit == \A k \in 0..Len(h) : Mat("f", F, N) = MMul(Mat("f", Collect(<< <<SubSeq(h, 1, k), c1>> >>), N), Mat("f", Collect(<< <<SubSeq(h, k+1, Len(h)), ROne>> >>), N))
Conserve == Charge(h) = 0 => \A x \in DOMAIN Mat("f", F, N) : PopCount(x[1], N) = PopCount(x[2], N)
Sound == Product /\ Adj /\ Expansion /\ Orthogonal /\ Rev /\ RevTwice /\ Fermi /\ FAdj /\ FNormal /\ FSplit /\ Conserve
=============================================================================
