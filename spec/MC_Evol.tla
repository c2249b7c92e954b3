------------------------------ MODULE MC_Evol --------------------------------
(* Product-formula evolution as a transition system: pick a Hamiltonian,     *)
(* then apply one factor per step.  Laws checked in every state.             *)
EXTENDS Pauli
CONSTANTS NQ, MaxTerms
VARIABLES H, A, v, k
vars == <<H, A, v, k>>
Strs == {f \in {<< <<0,a>> >> : a \in {"X","Y","Z"}} \cup {<< <<1,"Y">> >>}
         \cup {<< <<0,a>>, <<1,b>> >> : a, b \in {"X","Y","Z"}} : TRUE}
Terms == {[h |-> h, f |-> f] : h \in {1, -2}, f \in Strs}
Angles == {<<2,0>>, <<4,0>>, <<-2,2>>}
Init == /\ H = <<>> /\ A \in Angles /\ v = Basis(NQ, 1) /\ k = 0
AddTerm == Len(H) < MaxTerms /\ k = 0 /\ \E t \in Terms : H' = Append(H, t) /\ UNCHANGED <<A, v, k>>
Step == /\ Len(H) > 0 /\ k < Len(H)
        /\ v' = ExpPauli(Phi(H[k+1].h, A), H[k+1].f, NQ, v) /\ k' = k + 1 /\ UNCHANGED <<H, A>>
Next == AddTerm \/ Step
UnitNorm == Inner(v, v) = ROne
IsPrefixProduct == v = RunFactors(SubSeq(H, 1, k), A, NQ, Basis(NQ, 1))
Commuting == \A i, j \in 1..Len(H) : PCommute(H[i].f, H[j].f)
CommuteSound == Len(H) = 2 => (PCommute(H[1].f, H[2].f) <=>
      \A b \in 0..Pow2(NQ)-1 : PauliApply(H[1].f, NQ, PauliApply(H[2].f, NQ, Basis(NQ, b)))
                             = PauliApply(H[2].f, NQ, PauliApply(H[1].f, NQ, Basis(NQ, b))))
\* commuting terms: order and number of steps do not matter, i.e. the formula is exp(-iHt)
CommutingExact == (k = 0 /\ Len(H) = 2 /\ Commuting) =>
   /\ Trotter(H, A, 1, NQ, Basis(NQ, 1)) = Trotter(<<H[2], H[1]>>, A, 1, NQ, Basis(NQ, 1))
   /\ Trotter(H, A, 2, NQ, Basis(NQ, 1)) = Trotter(H, <<2*A[1], 2*A[2]>>, 1, NQ, Basis(NQ, 1))
Undo == (k = 0 /\ Len(H) > 0) =>
   RunFactors(Reverse(H), <<-A[1], -A[2]>>, NQ, Trotter(H, A, 1, NQ, Basis(NQ, 1))) = Basis(NQ, 1)
Obs == << [c |-> ROne, f |-> << <<0,"Z">> >>], [c |-> RInt(-2), f |-> << <<0,"X">>, <<1,"Y">> >>] >>
ShiftRule == (k = 0 /\ Len(H) > 0) =>
   TrotterDeriv(H, A, 1, NQ, Basis(NQ, 1), Obs) = ShiftDeriv(H, A, 1, NQ, Basis(NQ, 1), Obs)
=============================================================================
