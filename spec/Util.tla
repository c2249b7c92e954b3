-------------------------------- MODULE Util ---------------------------------
(* Bits and integers, matching of matrices up to a phase, apportioning totals, *)
(* value estimates as numbers.                                                  *)
EXTENDS Ring, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
\* ---- bits, most significant first
RECURSIVE BitsOf(_, _)
BitsOf(n, len) == IF len = 0 THEN <<>> ELSE Append(BitsOf(n \div 2, len - 1), n % 2)
FromBits(b) == FoldLeft(LAMBDA acc, x: (2 * acc) + x, 0, b)
FitsBits(n, len) == n >= 0 /\ n < 2^len
\* ---- matrices over the ring
MatDim(A) == Len(A)
MatGet(A, i, j) == A[i][j]
MatMul(A, B) == LET n == Len(A) IN
  TLCEval([i \in 1..n |-> [j \in 1..n |-> FoldLeft(LAMBDA acc, k: RAdd(acc, RMul(A[i][k], B[k][j])), RZero, [k \in 1..n |-> k])]])
MatAdj(A) == LET n == Len(A) IN TLCEval([i \in 1..n |-> [j \in 1..n |-> RConj(A[j][i])]])
MatId(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN ROne ELSE RZero]])
IsIdentityM(A) == A = MatId(Len(A))
IsUnitaryM(A) == IsIdentityM(MatMul(MatAdj(A), A))
\* equal up to a phase (both unitary)
SameUpToPhase(A, B) == LET P == MatMul(MatAdj(A), B) n == Len(A) IN
  \A i, j \in 1..n : P[i][j] = IF i = j THEN P[1][1] ELSE RZero
\* ---- apportionment of a total: shares v[i] * total / sum
Sum(v) == FoldLeft(LAMBDA acc, x: acc + x, 0, v)
ApportionOk(v, total, r) ==
  LET S == Sum(v)
      Fl(i) == (v[i] * total) \div S
      Rm(i) == (v[i] * total) % S
  IN /\ Len(r) = Len(v) /\ Sum(r) = total
     /\ \A i \in 1..Len(v) : r[i] \in {Fl(i), Fl(i) + 1} /\ (Rm(i) = 0 => r[i] = Fl(i))
     /\ \A i, j \in 1..Len(v) : r[i] = Fl(i) /\ r[j] = Fl(j) + 1 => Rm(j) >= Rm(i)
\* ---- value estimates: values in quarters, precision <<>> or <<quarters>>
VEq(a, p, b, q) == a = b /\ p = q
=============================================================================
