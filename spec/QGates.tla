------------------------------- MODULE QGates -------------------------------
(* The gate catalogue, gate algebra (controlled / dagger), and the action of *)
(* gates on state vectors, exactly, over Ring.                               *)
(* A parameter is an angle <<p,q>> = p pi/4 + q alpha, alpha = atan2(3,4).   *)
(* Matrices are sequences of rows; vectors are sequences of length 2^n;      *)
(* qubit 0 is the most significant bit of a (0-based) basis index.           *)
EXTENDS Ring, FiniteSets, SequencesExt

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n-1)

Dim(M) == Len(M)
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)

IdM(d) == TLCEval([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN ROne ELSE RZero]])
Adj(M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> RConj(M[j][i])]])
MMul(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |->
                 FoldLeft(LAMBDA acc, k: RAdd(acc, RMul(A[i][k], B[k][j])), RZero,
                          [k \in 1..Len(A) |-> k])]])
MScale(s, M) == TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> RMul(s, M[i][j])]])
CtrlM(M, c) ==
  LET d == Len(M)  D == d * Pow2(c)  IN
  TLCEval([i \in 1..D |-> [j \in 1..D |->
     IF i > D - d /\ j > D - d THEN M[i-(D-d)][j-(D-d)]
     ELSE IF i = j THEN ROne ELSE RZero]])

\* half angle of a parameter (requires both components even)
Hf(t) == <<t[1] \div 2, t[2] \div 2>>
C_(t) == RCos(Hf(t)[1], Hf(t)[2])
S_(t) == RSin(Hf(t)[1], Hf(t)[2])
E_(t) == RPhase(t[1], t[2])
EH(t) == RPhase(Hf(t)[1], Hf(t)[2])
AngNeg(t) == <<-t[1], -t[2]>>
AngAdd(t, u) == <<t[1]+u[1], t[2]+u[2]>>
mI(x) == RMul(<<0,0,-1,0,0,0>>, x)
pI(x) == RMul(RI, x)
O == RZero
U == ROne

BaseMat(g, p) ==
  CASE g = "X" -> << <<O,U>>, <<U,O>> >>
    [] g = "Y" -> << <<O,<<0,0,-1,0,0,0>>>>, <<RI,O>> >>
    [] g = "Z" -> << <<U,O>>, <<O,RNeg(U)>> >>
    [] g = "H" -> << <<RInvSqrt2,RInvSqrt2>>, <<RInvSqrt2,RNeg(RInvSqrt2)>> >>
    [] g = "I" -> << <<U,O>>, <<O,U>> >>
    [] g = "S" -> << <<U,O>>, <<O,RI>> >>
    [] g = "T" -> << <<U,O>>, <<O,ROmega>> >>
    [] g = "RX" -> << <<C_(p[1]), mI(S_(p[1]))>>, <<mI(S_(p[1])), C_(p[1])>> >>
    [] g = "RY" -> << <<C_(p[1]), RNeg(S_(p[1]))>>, <<S_(p[1]), C_(p[1])>> >>
    [] g = "RZ" -> << <<EH(AngNeg(p[1])), O>>, <<O, EH(p[1])>> >>
    [] g = "RH" ->
         LET c == C_(p[1])  s == RMul(RInvSqrt2, S_(p[1]))  e == EH(p[1]) IN
         << <<RMul(e, RAdd(c, mI(s))), RMul(e, mI(s))>>,
            <<RMul(e, mI(s)), RMul(e, RAdd(c, pI(s)))>> >>
    [] g = "PHASE" -> << <<U,O>>, <<O,E_(p[1])>> >>
    [] g = "U3" ->
         << <<C_(p[1]), RNeg(RMul(E_(p[3]), S_(p[1])))>>,
            <<RMul(E_(p[2]), S_(p[1])), RMul(E_(AngAdd(p[2],p[3])), C_(p[1]))>> >>
    [] g = "CNOT" -> << <<U,O,O,O>>, <<O,U,O,O>>, <<O,O,O,U>>, <<O,O,U,O>> >>
    [] g = "CZ" -> << <<U,O,O,O>>, <<O,U,O,O>>, <<O,O,U,O>>, <<O,O,O,RNeg(U)>> >>
    [] g = "SWAP" -> << <<U,O,O,O>>, <<O,O,U,O>>, <<O,U,O,O>>, <<O,O,O,U>> >>
    [] g = "ISWAP" -> << <<U,O,O,O>>, <<O,O,RI,O>>, <<O,RI,O,O>>, <<O,O,O,U>> >>
    [] g = "CPHASE" -> << <<U,O,O,O>>, <<O,U,O,O>>, <<O,O,U,O>>, <<O,O,O,E_(p[1])>> >>
    [] g = "XX" -> LET c == C_(p[1]) s == mI(S_(p[1])) IN
         << <<c,O,O,s>>, <<O,c,s,O>>, <<O,s,c,O>>, <<s,O,O,c>> >>
    [] g = "YY" -> LET c == C_(p[1]) s == mI(S_(p[1])) IN
         << <<c,O,O,RNeg(s)>>, <<O,c,s,O>>, <<O,s,c,O>>, <<RNeg(s),O,O,c>> >>
    [] g = "ZZ" -> LET e == EH(p[1]) f == EH(AngNeg(p[1])) IN
         << <<f,O,O,O>>, <<O,e,O,O>>, <<O,O,e,O>>, <<O,O,O,f>> >>
    [] g = "XY" -> LET c == C_(p[1]) s == pI(S_(p[1])) IN
         << <<U,O,O,O>>, <<O,c,s,O>>, <<O,s,c,O>>, <<O,O,O,U>> >>
    \* user-defined gates used by the conformance drivers
    [] g = "cg_phase2" -> \* two params, diag(e^{i a}, e^{i (a + 2 b)})
         << <<E_(p[1]), O>>, <<O, E_(AngAdd(p[1], AngAdd(p[2],p[2])))>> >>
    [] g = "cg_sy" -> << <<RHalf, RNeg(RHalf)>>, <<RHalf, RHalf>> >>   \* not unitary on purpose
    [] g = "cg_diag4" -> \* one param, diag(1, e^{ia}, e^{-ia}, -1)
         << <<U,O,O,O>>, <<O,E_(p[1]),O,O>>, <<O,O,E_(AngNeg(p[1])),O>>, <<O,O,O,RNeg(U)>> >>
    [] g = "cg_perm4" -> << <<O,U,O,O>>, <<O,O,U,O>>, <<O,O,O,U>>, <<U,O,O,O>> >>
    [] g = "cg_rot3" -> \* three params: e^{i(a-c)} on |0>, e^{i(b+c)} X-like corner
         << <<O, E_(AngAdd(p[1], AngNeg(p[3])))>>, <<E_(AngAdd(p[2], p[3])), O>> >>

HermitianGates == {"X","Y","Z","H","I","CNOT","CZ","SWAP"}
ParamCount(g) == CASE g \in {"RX","RY","RZ","RH","PHASE","CPHASE","XX","YY","ZZ","XY","cg_diag4"} -> 1
                   [] g \in {"U3","cg_rot3"} -> 3
                   [] g = "cg_phase2" -> 2
                   [] OTHER -> 0
BaseArity(g) == IF g \in {"CNOT","CZ","SWAP","ISWAP","CPHASE","XX","YY","ZZ","XY","cg_diag4","cg_perm4"} THEN 2 ELSE 1

(* A gate value, in canonical form: base gate, dagger flag, control count.   *)
(*   dagger of a hermitian gate is itself; dagger cancels; controls merge;   *)
(*   dagger and control commute.                                             *)
MkGate(n, ps) == [n |-> n, p |-> ps, d |-> FALSE, c |-> 0]
GDagger(g) == [g EXCEPT !.d = IF g.n \in HermitianGates THEN FALSE ELSE ~g.d]
GControl(g, k) == [g EXCEPT !.c = g.c + k]
GArity(g) == BaseArity(g.n) + g.c
GMat(g) == LET B == BaseMat(g.n, g.p)
               D == IF g.d THEN Adj(B) ELSE B
           IN TLCEval(IF g.c = 0 THEN D ELSE CtrlM(D, g.c))
\* wrappers as a word: 0 = dagger, k>0 = controlled(k)
GWrap(g, w) == FoldLeft(LAMBDA acc, x: IF x = 0 THEN GDagger(acc) ELSE GControl(acc, x), g, w)

----------------------------------------------------------------------------
Bit(i, q, n) == (i \div Pow2(n-1-q)) % 2          \* i is a 0-based basis index
SubIdx(i, qs, n) ==                                \* bits of i at qs, qs[1] most significant
  FoldLeft(LAMBDA acc, q: 2*acc + Bit(i, q, n), 0, qs)
SetSub(i, qs, n, v) ==                             \* i with the bits at qs replaced by v
  LET k == Len(qs) IN
  FoldLeft(LAMBDA acc, j: acc + (((v \div Pow2(k-j)) % 2) - Bit(i, qs[j], n)) * Pow2(n-1-qs[j]),
           i, [j \in 1..k |-> j])

ApplyMat(M, qs, n, vec) ==
  LET d == Len(M) IN
  TLCEval([ii \in 1..Len(vec) |->
     LET i == ii - 1
         row == M[SubIdx(i, qs, n) + 1]
     IN FoldLeft(LAMBDA acc, v:
                   IF RIsZero(row[v]) THEN acc
                   ELSE RAdd(acc, RMul(row[v], vec[SetSub(i, qs, n, v-1) + 1])),
                 RZero, [v \in 1..d |-> v])])

Basis(n, i) == TLCEval([j \in 1..Pow2(n) |-> IF j = i+1 THEN ROne ELSE RZero])

\* an operation is [g |-> gate, q |-> <<qubits>>]
ApplyOp(op, n, vec) == ApplyMat(GMat(op.g), op.q, n, vec)
RunOps(ops, n, vec) == FoldLeft(LAMBDA v, op: ApplyOp(op, n, v), vec, ops)

\* column j of the result is the image of basis vector j
Unitary(ops, n) ==
  LET N == Pow2(n)
      mats == TLCEval([x \in 1..Len(ops) |-> GMat(ops[x].g)])
      cols == TLCEval([j \in 1..N |->
                FoldLeft(LAMBDA v, x: ApplyMat(mats[x], ops[x].q, n, v),
                         Basis(n, j-1), [x \in 1..Len(ops) |-> x])])
  IN TLCEval([i \in 1..N |-> [j \in 1..N |-> cols[j][i]]])

IsIdentityUpToPhase(M) ==
  /\ \A i, j \in 1..Len(M) : i # j => RIsZero(M[i][j])
  /\ \A i \in 1..Len(M) : M[i][i] = M[1][1]
  /\ RAbs2(M[1][1]) = ROne
EqUpToPhase(A, B) == IsIdentityUpToPhase(MMul(Adj(A), B))
=============================================================================
