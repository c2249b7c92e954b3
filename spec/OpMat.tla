-------------------------------- MODULE OpMat --------------------------------
(* Matrices of operators.  A matrix is a function <<row, column>> -> nonzero  *)
(* ring element; qubit (mode) 0 is the most significant bit of an index.      *)
EXTENDS Ferm
P2(n) == 2^n
BitAt(c, q, n) == (c \div P2(n-1-q)) % 2
\* a Pauli string sends column c to one row with a phase i^k
PCol(f, n, c) == FoldLeft(LAMBDA acc, x:
   LET b == BitAt(acc[2], x[1], n) fl == P2(n-1-x[1])
       r == IF x[2] = "Z" THEN acc[2] ELSE IF b = 1 THEN acc[2] - fl ELSE acc[2] + fl
       k == CASE x[2] = "X" -> 0 [] x[2] = "Y" -> 1 + (2 * b) [] x[2] = "Z" -> 2 * b
   IN <<(acc[1] + k) % 4, r>>, <<0, c>>, f)
Occ(c, n) == {m \in 0..(n-1) : BitAt(c, m, n) = 1}
Idx(occ, n) == FoldSet(LAMBDA m, acc: acc + P2(n-1-m), 0, occ)
\* entries (with repetitions) of one term
TermEnts(kind, f, a, n) ==
  IF kind # "f" THEN TLCEval([c \in 1..P2(n) |-> LET r == PCol(f, n, c-1) IN << <<r[2], c-1>>, RMul(a, IPow(r[1]))>>])
  ELSE LET cols == SelectSeq(TLCEval([c \in 1..P2(n) |-> <<ActTerm(f, Occ(c-1, n)), c-1>>]), LAMBDA x: x[1][1] # 0)
       IN TLCEval([i \in 1..Len(cols) |-> << <<Idx(cols[i][1][2], n), cols[i][2]>>, IF cols[i][1][1] = 1 THEN a ELSE RNeg(a)>>])
Mat(kind, A, n) == LET s == TermSeq(A) IN Collect(FlattenSeq(TLCEval([i \in 1..Len(s) |-> TermEnts(kind, s[i][1], s[i][2], n)])))
\* a matrix from a list of [i, j, v]
MatOf(es) == Collect(TLCEval([i \in 1..Len(es) |-> << <<es[i].i, es[i].j>>, es[i].v>>]))
Dagger(M) == Collect([i \in 1..Cardinality(DOMAIN M) |-> LET s == SetToSeq(DOMAIN M) IN << <<s[i][2], s[i][1]>>, RConj(M[s[i]])>>])
MMul(M, N) == LET a == TermSeq(M) b == TermSeq(N)
                  prs == SetToSeq({<<i, j>> \in (1..Len(a)) \X (1..Len(b)) : a[i][1][2] = b[j][1][1]})
              IN Collect(TLCEval([p \in 1..Len(prs) |-> LET x == a[prs[p][1]] y == b[prs[p][2]] IN << <<x[1][1], y[1][2]>>, RMul(x[2], y[2])>>]))
TrM(M) == FoldSet(LAMBDA x, acc: IF x[1] = x[2] THEN RAdd(acc, M[x]) ELSE acc, RZero, DOMAIN M)
Ent(M, i, j) == IF <<i, j>> \in DOMAIN M THEN M[<<i, j>>] ELSE RZero
\* vectors: functions index -> nonzero ring element
VecOf(es) == Collect(TLCEval([i \in 1..Len(es) |-> <<es[i].i, es[i].v>>]))
VEnt(v, i) == IF i \in DOMAIN v THEN v[i] ELSE RZero
MVec(M, v) == LET d == SetToSeq({x \in DOMAIN M : x[2] \in DOMAIN v}) IN Collect(TLCEval([i \in 1..Len(d) |-> <<d[i][1], RMul(M[d[i]], v[d[i][2]])>>]))
VDot(u, v) == FoldSet(LAMBDA i, acc: RAdd(acc, RMul(RConj(u[i]), v[i])), RZero, DOMAIN u \cap DOMAIN v)
Quad(M, v) == VDot(v, MVec(M, v))
VScl(c, v) == IF c = RZero THEN OZero ELSE TLCEval([i \in DOMAIN v |-> RMul(c, v[i])])
Outer(p, v) == Collect([i \in 1..(Cardinality(DOMAIN v) * Cardinality(DOMAIN v)) |->
   LET s == SetToSeq(DOMAIN v) n == Len(s) x == s[((i-1) \div n) + 1] y == s[((i-1) % n) + 1] IN << <<x, y>>, RMul(p, RMul(v[x], RConj(v[y])))>>])
\* all Pauli strings on n qubits
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE Strings(n-1) \cup {Append(f, <<n-1, P>>) : f \in Strings(n-1), P \in {"X", "Y", "Z"}}
\* the Pauli expansion: 2^-n sum over P of tr(M P) P
Expand(M, n) ==
  LET S == SetToSeq(Strings(n)) IN
  Collect(TLCEval([i \in 1..Len(S) |-> <<S[i], RMul(RPow(RHalf, n), FoldLeft(LAMBDA acc, c: LET r == PCol(S[i], n, c-1) IN
     RAdd(acc, RMul(Ent(M, c-1, r[2]), IPow(r[1]))), RZero, [c \in 1..P2(n) |-> c]))>>]))
Reversed(A, n) == LET s == TermSeq(A) IN
  Collect(TLCEval([i \in 1..Len(s) |-> LET f == s[i][1] IN <<[j \in 1..Len(f) |-> <<n - 1 - f[Len(f) + 1 - j][1], f[Len(f) + 1 - j][2]>>], s[i][2]>>]))
RevIdx(c, n) == FoldLeft(LAMBDA acc, q: acc + (BitAt(c, q-1, n) * P2(q-1)), 0, [q \in 1..n |-> q])
\* the part of a matrix on the diagonal, and the block of a set of states (listed in order)
DiagPart(M) == LET D == {x \in DOMAIN M : x[1] = x[2]} IN TLCEval([x \in D |-> M[x]])
Block(M, ix) == LET n == Len(ix)
                    d == SetToSeq({<<i, j>> \in (1..n) \X (1..n) : <<ix[i], ix[j]>> \in DOMAIN M})
                IN Collect(TLCEval([p \in 1..Len(d) |-> << <<d[p][1] - 1, d[p][2] - 1>>, M[<<ix[d[p][1]], ix[d[p][2]]>>]>>]))
PopCount(c, n) == Cardinality(Occ(c, n))
\* states with the particle number of the reference (a set of modes), at most lev excitations away
Sector(n, ref, lev, spin) ==
  {c \in 0..(P2(n)-1) : LET o == Occ(c, n) IN
     /\ Cardinality(o) = Cardinality(ref)
     /\ Cardinality(ref \ o) <= lev
     /\ (spin = 1 => Cardinality({m \in o : m % 2 = 0}) = Cardinality({m \in ref : m % 2 = 0}))}
\* power sums
RECURSIVE MPow(_, _)
MPow(M, k) == IF k = 1 THEN M ELSE MMul(M, MPow(M, k-1))
RSum(s) == FoldLeft(LAMBDA acc, x: RAdd(acc, x), RZero, s)
ReHalf(x) == RMul(RHalf, RAdd(x, RConj(x)))
\* comparison of real numbers without square roots: x <= y, both <<a,0,0,0,k,m>>, k even
RLe(x, y) == LET d == RSub(y, x) IN d[1] >= 0
IsReal(x) == x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 /\ x[5] % 2 = 0
=============================================================================
