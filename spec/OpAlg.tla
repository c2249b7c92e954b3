------------------------------- MODULE OpAlg --------------------------------
(* Symbolic operators: weighted sums of products of indexed factors.  An      *)
(* operator is a function from terms (sequences of <<index, action>>) to      *)
(* nonzero ring elements.  Kinds: "q" Pauli operators (actions X Y Z), "i"    *)
(* Ising operators (Z only), "f" fermionic ladder operators (1 raising, 0     *)
(* lowering; no simplification).                                              *)
EXTENDS Ring, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions
\* sequence of <<term, coefficient>> -> operator
Collect(s) ==
  LET T == {s[i][1] : i \in 1..Len(s)}
      F == TLCEval([t \in T |-> FoldLeft(LAMBDA acc, x: IF x[1] = t THEN RAdd(acc, x[2]) ELSE acc, RZero, s)])
      N == {t \in T : F[t] # RZero}
  IN TLCEval([t \in N |-> F[t]])
OZero == Collect(<<>>)
TermSeq(A) == LET ts == SetToSeq(DOMAIN A) IN TLCEval([i \in 1..Len(ts) |-> <<ts[i], A[ts[i]]>>])
Coef(A, t) == IF t \in DOMAIN A THEN A[t] ELSE RZero
\* ---- products of Pauli factors: <<k, P>> stands for i^k P -----------------------
PMul2(a, b) ==
  IF a = "I" THEN <<0, b>> ELSE IF b = "I" THEN <<0, a>> ELSE IF a = b THEN <<0, "I">>
  ELSE CASE a = "X" /\ b = "Y" -> <<1, "Z">> [] a = "Y" /\ b = "Z" -> <<1, "X">> [] a = "Z" /\ b = "X" -> <<1, "Y">>
         [] a = "Y" /\ b = "X" -> <<3, "Z">> [] a = "Z" /\ b = "Y" -> <<3, "X">> [] a = "X" /\ b = "Z" -> <<3, "Y">>
IPow(k) == RPow(RI, k % 4)
IndexSeq(f) == SetToSortSeq({f[i][1] : i \in 1..Len(f)}, <)
PauliSimp(f) ==      \* <<phase power, term>>
  LET Q == IndexSeq(f)
      One(q) == FoldLeft(LAMBDA acc, x: IF x[1] # q THEN acc ELSE LET m == PMul2(acc[2], x[2]) IN <<acc[1] + m[1], m[2]>>, <<0, "I">>, f)
      R == TLCEval([i \in 1..Len(Q) |-> <<Q[i], One(Q[i])>>])
      K == SelectSeq(R, LAMBDA x: x[2][2] # "I")
  IN <<FoldLeft(LAMBDA acc, x: acc + x[2][1], 0, R) % 4, TLCEval([i \in 1..Len(K) |-> <<K[i][1], K[i][2][2]>>])>>
Simp(kind, f) == IF kind = "f" THEN <<0, f>> ELSE PauliSimp(f)
IsSimple(kind, f) == kind = "f" \/ (\A i \in 1..(Len(f)-1) : f[i][1] < f[i+1][1])
ActionsOf(kind) == CASE kind = "q" -> {"X", "Y", "Z"} [] kind = "i" -> {"Z"} [] kind = "f" -> {0, 1}
\* ---- algebra ------------------------------------------------------------------
OFromTerms(kind, ts) ==   \* sequence of [c, f]
  Collect(TLCEval([i \in 1..Len(ts) |-> LET s == Simp(kind, ts[i].f) IN <<s[2], RMul(ts[i].c, IPow(s[1]))>>]))
OScale(c, A) == IF c = RZero THEN OZero ELSE TLCEval([t \in DOMAIN A |-> RMul(c, A[t])])
OAdd(A, B) ==
  LET D == DOMAIN A \cup DOMAIN B
      N == {t \in D : RAdd(Coef(A, t), Coef(B, t)) # RZero}
  IN TLCEval([t \in N |-> RAdd(Coef(A, t), Coef(B, t))])
ONeg(A) == TLCEval([t \in DOMAIN A |-> RNeg(A[t])])
OSub(A, B) == OAdd(A, ONeg(B))
OConst(c) == IF c = RZero THEN OZero ELSE Collect(<< <<<<>>, c>> >>)
OOne == OConst(ROne)
OMul(kind, A, B) ==
  LET a == TermSeq(A) b == TermSeq(B) n == Len(b)
  IN Collect(TLCEval([k \in 1..(Len(a) * n) |->
       LET x == a[((k-1) \div n) + 1] y == b[((k-1) % n) + 1] s == Simp(kind, x[1] \o y[1])
       IN <<s[2], RMul(RMul(x[2], y[2]), IPow(s[1]))>>]))
RECURSIVE OPow(_, _, _)
OPow(kind, A, n) == IF n = 0 THEN OOne ELSE OMul(kind, OPow(kind, A, n-1), A)
OSum(kind, s) == FoldLeft(LAMBDA acc, A: OAdd(acc, A), OZero, s)
\* the adjoint
Adjoint(kind, A) ==
  IF kind # "f" THEN TLCEval([t \in DOMAIN A |-> RConj(A[t])])
  ELSE LET s == TermSeq(A) IN Collect(TLCEval([i \in 1..Len(s) |->
         <<[j \in 1..Len(s[i][1]) |-> LET x == s[i][1][Len(s[i][1]) + 1 - j] IN <<x[1], 1 - x[2]>>], RConj(s[i][2])>>]))
\* largest index + 1
Width(A) == Max({0} \cup UNION {{t[i][1] + 1 : i \in 1..Len(t)} : t \in DOMAIN A})
Order(A) == Max({0} \cup {Len(t) : t \in DOMAIN A})
=============================================================================
