------------------------------- MODULE MC_Ferm ------------------------------
(* Fermionic terms, one factor at a time (the state is a term): normal form,  *)
(* adjoint and transforms denote the same operator on occupation states.      *)
EXTENDS Ferm, Pauli
CONSTANTS M, MaxLen, Strings
VARIABLE f
Modes == 0..(M-1)
Occ == SUBSET Modes
Op1(t) == Collect(<< <<t, ROne>> >>)
Init == f = <<>>
Next == Len(f) < MaxLen /\ \E x \in Modes \X {0, 1} : f' = Append(f, x)
NF == NormalForm(Op1(f))
Same(A, B) == \A i, o \in Occ : Elem(A, o, i) = Elem(B, o, i)
NormalDenotes == IsNormal(NF) /\ Same(Op1(f), NF)
AdjointDenotes == LET A == Op1(f) D == Adjoint("f", A) IN \A i, o \in Occ : Elem(D, o, i) = RConj(Elem(A, i, o))
\* the qubit image of an occupation state: bit of qubit m is the occupation of mode m (qubit 0 first)
Idx(occ) == FoldLeft(LAMBDA acc, m: (2 * acc) + (IF (m-1) \in occ THEN 1 ELSE 0), 0, [m \in 1..M |-> m]) + 1
Den(A) == LET s == TermSeq(A) IN OpMat(TLCEval([i \in 1..Len(s) |-> [c |-> s[i][2], f |-> s[i][1]]]), M)
JWDenotes == LET D == Den(JW(Op1(f))) A == Op1(f) IN \A i, o \in Occ : D[Idx(o)][Idx(i)] = Elem(A, o, i)
JWReverse == SameOp(RevJW(JW(Op1(f))), Op1(f))
JWNormal == JW(NF) = JW(Op1(f))
\* normal terms are independent: triangular with respect to their own matrix element
RECURSIVE NormalsUpTo(_)
NormalsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET P == NormalsUpTo(n-1) IN P \cup {t \in {Append(s, x) : s \in P, x \in Modes \X {0, 1}} : IsNormalTerm(t)}
NTerms == NormalsUpTo(2*M)
Cs(t) == {t[i][1] : i \in {j \in 1..Len(t) : t[j][2] = 1}}
As(t) == {t[i][1] : i \in {j \in 1..Len(t) : t[j][2] = 0}}
ASSUME Cardinality(NTerms) = 4^M
ASSUME \A t, u \in NTerms : (Elem(Op1(u), Cs(t), As(t)) # RZero) => Cs(u) \subseteq Cs(t) /\ As(u) \subseteq As(t)
ASSUME \A t \in NTerms : Elem(Op1(t), Cs(t), As(t)) # RZero
\* Jordan-Wigner images obey the relations; every Pauli string comes back
JWImg == [m \in 1..M |-> JWLadder(<<m-1, 1>>)]
ASSUME CAR(JWImg) /\ \A m \in Modes : ImgOf(JWImg, <<m, 0>>) = JWLadder(<<m, 0>>)
PStrings == {LET K == SelectSeq(IndexSeq([i \in 1..M |-> <<i-1, 0>>]), LAMBDA q: s[q] # "I") IN [i \in 1..Len(K) |-> <<K[i], s[K[i]]>>] : s \in [Modes -> {"I", "X", "Y", "Z"}]}
ASSUME Strings => \A p \in PStrings : JW(RevJW(Op1(p))) = Op1(p)
=============================================================================
