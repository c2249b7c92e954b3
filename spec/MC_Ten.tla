------------------------------- MODULE MC_Ten --------------------------------
(* Basis changes compose and respect the algebra and the adjoint; freezing is *)
(* compatible with products of operators that leave the frozen modes alone;   *)
(* projections are idempotent and split the operator; the expectation of an   *)
(* operator in a state is its contraction with the state's density matrices.  *)
EXTENDS Tensors
CONSTANTS N, L
VARIABLES f, g
Lad == {<<m, a>> : m \in 0..(N-1), a \in {0, 1}}
Init == f = <<>> /\ g = <<>>
Next == \/ (Len(f) < L /\ g = <<>> /\ \E x \in Lad : f' = Append(f, x) /\ UNCHANGED g)
        \/ (Len(g) < 2 /\ \E x \in Lad : g' = Append(g, x) /\ UNCHANGED f)
c1 == <<1,0,2,0,2,0>>
R1 == Collect(<< << <<0,0>>, RInvSqrt2>>, << <<0,1>>, RInvSqrt2>>, << <<1,0>>, RInvSqrt2>>, << <<1,1>>, RNeg(RInvSqrt2)>> >>)
R2 == Collect(<< << <<0,1>>, RI>>, << <<1,0>>, ROne>> >>)
R3 == Collect(<< << <<0,0>>, <<3,0,0,0,0,1>> >>, << <<0,1>>, <<-4,0,0,0,0,1>> >>, << <<1,0>>, <<4,0,0,0,0,1>> >>, << <<1,1>>, <<3,0,0,0,0,1>> >> >>)
Rs == {R1, R2, R3}
A == Collect(<< <<f, c1>>, <<g, RInt(2)>> >>)
B == Collect(<< <<g, RI>>, <<<<>>, ROne>> >>)
Compose == \A R \in Rs : \A S \in Rs :
   Rotate(Rotate(A, R), S) = Rotate(A, MMul(R, S))
Back == \A R \in Rs :
   Rotate(Rotate(A, R), Dagger(R)) = A
RotMul == \A R \in Rs :
   Rotate(OMul("f", A, B), R) = OMul("f", Rotate(A, R), Rotate(B, R))
RotAdj == \A R \in Rs :
   Rotate(Adjoint("f", A), R) = Adjoint("f", Rotate(A, R))
\* a unitary change of basis keeps the anticommutation relations, hence normal forms
RotNorm == \A R \in Rs :
   SameOp(Rotate(A, R), Rotate(NormalForm(A), R))
Proj == \A k \in 0..3 :
   /\ ProjCount(ProjCount(A, k, 0), k, 0) = ProjCount(A, k, 0)
   /\ ProjCount(A, k, 1) = OSub(ProjCount(A, k, 0), ProjCount(A, k-1, 0))
ProjS == \A S \in SUBSET (0..(N-1)) :
   ProjSet(A, S, 0) = OSum("f", [i \in 1..Cardinality(SUBSET S) |-> ProjSet(A, SetToSeq(SUBSET S)[i], 1)])
V == Collect(<< <<1, RInvSqrt2>>, <<2, RMul(RI, RInvSqrt2)>> >>)
TwoBodyPart == KeepT(A, LAMBDA u: KeyOf(u) \in {<<>>, <<1, 0>>, <<1, 1, 0, 0>>})
RDMOk == Quad(Mat("f", TwoBodyPart, N), V) = Contract(TwoBodyPart, RDM(V, N))
Freeze == \A occ \in SUBSET {0} :
   LET act == 1..(N-1)
       Inside(t) == Indices(t) \subseteq act
       P == KeepT(A, Inside) IN
   (\A t \in DOMAIN P : Len(t) % 2 = 0) => SameFrozen(P, occ, act, P)
Sound == Compose /\ Back /\ RotMul /\ RotAdj /\ RotNorm /\ Proj /\ ProjS /\ RDMOk /\ Freeze
=============================================================================
