------------------------------- MODULE Pauli --------------------------------
(* Pauli operators as sequences of terms [c |-> Ring, f |-> <<<<q, "X">>..>>]*)
(* acting on state vectors; exponentials of Pauli terms; product formulas    *)
(* and their exact time derivatives.                                         *)
EXTENDS QGates
VScale(s, v) == TLCEval([i \in 1..Len(v) |-> RMul(s, v[i])])
VAdd(u, v) == TLCEval([i \in 1..Len(v) |-> RAdd(u[i], v[i])])
VZero(n) == TLCEval([i \in 1..Pow2(n) |-> RZero])
Inner(u, v) == FoldLeft(LAMBDA acc, i: RAdd(acc, RMul(RConj(u[i]), v[i])), RZero, [i \in 1..Len(v) |-> i])
PauliApply(f, n, v) == FoldLeft(LAMBDA acc, x: ApplyMat(BaseMat(x[2], <<>>), <<x[1]>>, n, acc), v, f)
OpApply(ts, n, v) == FoldLeft(LAMBDA acc, t: VAdd(acc, VScale(t.c, PauliApply(t.f, n, v))), VZero(n), ts)
TermValue(t, n, v) == RMul(t.c, Inner(v, PauliApply(t.f, n, v)))
OpMat(ts, n) == LET N == Pow2(n)
                    cols == TLCEval([j \in 1..N |-> OpApply(ts, n, Basis(n, j-1))])
                IN TLCEval([i \in 1..N |-> [j \in 1..N |-> cols[j][i]]])
\* exp(-i phi P) with phi = <<p,q>>
ExpPauli(phi, f, n, v) ==
  LET w == PauliApply(f, n, v) IN
  VAdd(VScale(RCos(phi[1], phi[2]), v), VScale(RMul(<<0,0,-1,0,0,0>>, RSin(phi[1], phi[2])), w))
(* Hamiltonian H: sequence of [h |-> integer, f]: coefficient h/2.  A is the  *)
(* angle of t/steps (both components even), so each factor is exp(-i h A/2 P)*)
Phi(h, A) == <<h * (A[1] \div 2), h * (A[2] \div 2)>>
Factors(H, steps) == TLCEval([k \in 1..(steps * Len(H)) |-> H[((k - 1) % Len(H)) + 1]])
RunFactors(fs, A, n, v) == FoldLeft(LAMBDA acc, t: ExpPauli(Phi(t.h, A), t.f, n, acc), v, fs)
Trotter(H, A, steps, n, v) == RunFactors(Factors(H, steps), A, n, v)
TrotterMat(H, A, steps, n) ==
  LET N == Pow2(n)
      cols == TLCEval([j \in 1..N |-> Trotter(H, A, steps, n, Basis(n, j-1))])
  IN TLCEval([i \in 1..N |-> [j \in 1..N |-> cols[j][i]]])
\* h/(2 steps), steps a power of two
Rate(h, steps) == RNorm(<<h, 0, 0, 0, 2 + (2 * Log2(steps)), 0>>)
Re2(x) == RAdd(x, RConj(x))
\* d/dt of the expectation of obs in the state evolved for time t = steps * A
TrotterDeriv(H, A, steps, n, v, obs) ==
  LET fs == Factors(H, steps)
      psi == RunFactors(fs, A, n, v)
      opsi == OpApply(obs, n, psi)
      D(k) == LET before == RunFactors(SubSeq(fs, 1, k), A, n, v)
                  mid == VScale(RMul(<<0,0,-1,0,0,0>>, Rate(fs[k].h, steps)), PauliApply(fs[k].f, n, before))
              IN Re2(Inner(opsi, RunFactors(SubSeq(fs, k+1, Len(fs)), A, n, mid)))
  IN FoldLeft(LAMBDA acc, k: RAdd(acc, D(k)), RZero, [k \in 1..Len(fs) |-> k])
\* parameter-shift form: each factor's phase shifted by +-pi/4
ShiftDeriv(H, A, steps, n, v, obs) ==
  LET fs == Factors(H, steps)
      St(k, s) == LET b == RunFactors(SubSeq(fs, 1, k-1), A, n, v)
                      m == ExpPauli(<<Phi(fs[k].h, A)[1] + s, Phi(fs[k].h, A)[2]>>, fs[k].f, n, b)
                  IN RunFactors(SubSeq(fs, k+1, Len(fs)), A, n, m)
      Ex(w) == Inner(w, OpApply(obs, n, w))
  IN FoldLeft(LAMBDA acc, k: RAdd(acc, RMul(Rate(fs[k].h, steps), RSub(Ex(St(k, 1)), Ex(St(k, -1))))),
              RZero, [k \in 1..Len(fs) |-> k])
\* do two Pauli strings commute?
PFac(f, q) == IF \E i \in 1..Len(f) : f[i][1] = q THEN f[CHOOSE i \in 1..Len(f) : f[i][1] = q][2] ELSE "I"
PCommute(f, g) == (Cardinality({i \in 1..Len(f) : LET b == PFac(g, f[i][1]) IN b # "I" /\ b # f[i][2]}) % 2) = 0
=============================================================================
