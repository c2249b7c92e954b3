------------------------------- MODULE Tensors -------------------------------
(* Tensor representations.  A tensor object over n modes is read as the       *)
(* function from products of ladder operators to its (nonzero) entries; the   *)
(* pattern of raising and lowering operators of a product is the key of the   *)
(* array it is stored in, the empty product the constant.                     *)
EXTENDS OpMat
KeyOf(f) == [i \in 1..Len(f) |-> f[i][2]]
Indices(f) == {f[i][1] : i \in 1..Len(f)}
KeepT(A, P(_)) == LET D == {t \in DOMAIN A : P(t)} IN TLCEval([t \in D |-> A[t]])
MulEl(A, B) == LET D == DOMAIN A \cap DOMAIN B IN TLCEval([t \in D |-> RMul(A[t], B[t])])
\* integer entries, remainder after division
ModEl(A, m) == LET N == {t \in DOMAIN A : A[t][1] % m # 0} IN TLCEval([t \in N |-> RInt(A[t][1] % m)])
ProjCount(A, k, exact) == KeepT(A, LAMBDA t: LET c == Cardinality(Indices(t)) IN IF exact = 1 THEN c = k ELSE c <= k)
ProjSet(A, S, exact) == KeepT(A, LAMBDA t: IF exact = 1 THEN Indices(t) = S ELSE Indices(t) \subseteq S)
\* change of basis: a_p = sum over q of R[p,q] a_q and its adjoint
RECURSIVE RotTerm(_, _)
RotTerm(f, R) ==        \* sequence of <<term, coefficient>>
  IF f = <<>> THEN << <<<<>>, ROne>> >>
  ELSE LET rest == RotTerm(SubSeq(f, 1, Len(f)-1), R)
           x == f[Len(f)]
           qs == SetToSeq({q \in DOMAIN R : q[1] = x[1]})
           n == Len(qs)
       IN TLCEval([k \in 1..(Len(rest) * n) |-> LET a == rest[((k-1) \div n) + 1] q == qs[((k-1) % n) + 1] IN
            <<Append(a[1], <<q[2], x[2]>>), RMul(a[2], IF x[2] = 1 THEN RConj(R[q]) ELSE R[q])>>])
Rotate(A, R) == LET s == TermSeq(A) IN
  Collect(FlattenSeq(TLCEval([i \in 1..Len(s) |-> LET r == RotTerm(s[i][1], R) IN TLCEval([j \in 1..Len(r) |-> <<r[j][1], RMul(s[i][2], r[j][2])>>])])))
\* a rotation of orbitals acting on both spins (spin is the least significant part of a mode index)
Spatial(R) == LET s == TermSeq(R) IN Collect(FlattenSeq(TLCEval([i \in 1..Len(s) |->
   << << <<2 * s[i][1][1], 2 * s[i][1][2]>>, s[i][2]>>, << <<(2 * s[i][1][1]) + 1, (2 * s[i][1][2]) + 1>>, s[i][2]>> >>])))
\* operators an interaction operator can hold
Interaction(A) == \A t \in DOMAIN NormalForm(A) : KeyOf(t) \in {<<>>, <<1, 0>>, <<1, 1, 0, 0>>}
\* symmetry groups of the entries
Quad4(f) == <<f[1][1], f[2][1], f[3][1], f[4][1]>>
Orbit2(f, cx) == LET p == Quad4(f)
                     four == {p, <<p[2], p[1], p[4], p[3]>>, <<p[4], p[3], p[2], p[1]>>, <<p[3], p[4], p[1], p[2]>>}
                     more == {<<p[1], p[4], p[3], p[2]>>, <<p[2], p[3], p[4], p[1]>>, <<p[4], p[1], p[2], p[3]>>, <<p[3], p[2], p[1], p[4]>>}
                 IN {<< <<x[1], 1>>, <<x[2], 1>>, <<x[3], 0>>, <<x[4], 0>> >> : x \in IF cx = 1 THEN four ELSE four \cup more}
Orbit(f, cx) == IF f = <<>> THEN {<<>>} ELSE IF Len(f) = 2 THEN {f, << <<f[2][1], 1>>, <<f[1][1], 0>> >>} ELSE Orbit2(f, cx)
Symmetric(A, cx) == \A t \in DOMAIN A : \A u \in Orbit(t, cx) : Coef(A, u) = A[t]
SymSupport(A, cx) == \A t \in DOMAIN A : Orbit(t, cx) \subseteq DOMAIN A
\* expectation of a product of ladder operators in a state
ExpTerm(f, v, n) == FoldSet(LAMBDA c, acc: LET r == ActTerm(f, Occ(c, n)) IN
   IF r[1] = 0 THEN acc ELSE LET w == RMul(RConj(VEnt(v, Idx(r[2], n))), v[c]) IN RAdd(acc, IF r[1] = 1 THEN w ELSE RNeg(w)), RZero, DOMAIN v)
OneRDM(v, n) == Collect(TLCEval([k \in 1..(n*n) |-> LET f == << <<(k-1) \div n, 1>>, <<(k-1) % n, 0>> >> IN <<f, ExpTerm(f, v, n)>>]))
TwoRDM(v, n) == Collect(TLCEval([k \in 1..(n*n*n*n) |->
   LET j == k-1 f == << <<j \div (n*n*n), 1>>, <<(j \div (n*n)) % n, 1>>, <<(j \div n) % n, 0>>, <<j % n, 0>> >> IN <<f, ExpTerm(f, v, n)>>]))
RDM(v, n) == OAdd(OneRDM(v, n), TwoRDM(v, n))
Contract(A, D) == RAdd(Coef(A, <<>>), FoldSet(LAMBDA t, acc: RAdd(acc, RMul(A[t], D[t])), RZero, (DOMAIN A \cap DOMAIN D) \ {<<>>}))
\* matrix of A between states that agree with a frozen part: columns are sets of active modes
FrozenCol(A, occ, act, S) ==    \* S subset of act; image within occ + subsets of act
  LET s == TermSeq(A)
      im == SelectSeq(TLCEval([i \in 1..Len(s) |-> <<ActTerm(s[i][1], occ \cup S), s[i][2]>>]),
                      LAMBDA x: x[1][1] # 0 /\ (x[1][2] \ act) = occ)
  IN Collect(TLCEval([i \in 1..Len(im) |-> <<im[i][1][2] \cap act, IF im[i][1][1] = 1 THEN im[i][2] ELSE RNeg(im[i][2])>>]))
SameFrozen(A, occ, act, B) ==       \* B acts on act alone, the way A acts on occ + act
  \A S \in SUBSET act : FrozenCol(A, occ, act, S) = FrozenCol(B, {}, act, S)
SortedSeq(S) == SetToSortSeq(S, <)
\* new numbers of the remaining modes
Squeeze(A, act) == LET q == SortedSeq(act)
                       m == [k \in 1..(Max({0} \cup act) + 1) |-> Cardinality({x \in act : x < k - 1})] IN Relabel(A, m)
Unsqueeze(A, act) == LET q == SortedSeq(act) IN Relabel(A, TLCEval([k \in 1..Len(q) |-> q[k]]))
=============================================================================
