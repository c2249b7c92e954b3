-------------------------------- MODULE TV_Mat -------------------------------
(* Traces of operator utilities judged against the matrices they denote.      *)
EXTENDS TraceLib, OpMat
VARIABLES sid, l, st
OpOf(kind, ts) == TLCEval(OFromTerms(kind, ts))
Stored(ts) == TLCEval(Collect([i \in 1..Len(ts) |-> <<ts[i].f, ts[i].c>>]))
Distinct(ts) == \A i, j \in 1..Len(ts) :
   i # j => ts[i].f # ts[j].f
Simple(kind, ts) == \A i \in 1..Len(ts) :
   IsSimple(kind, ts[i].f) /\ \A j \in 1..Len(ts[i].f) : ts[i].f[j][2] \in ActionsOf(kind)
QubitsOf(A, ns) == IF ns = <<>> THEN Width(A) ELSE ns[1]
\* an observed matrix: [d, es] with es a list of [i, j, v]
IsMat(m, M, d) == m.d = <<d, d>> /\ MatOf(m.es) = M
Denot(e) == IF e.k = "f" THEN Mat("f", Stored(e.ts), e.n) ELSE Mat("q", OpOf("q", e.ts), e.n)
States(e) == [i \in 1..Len(e.states) |-> VecOf(e.states[i])]
NormSq(v) == VDot(v, v)
Diagonal(M) == \A x \in DOMAIN M : x[1] = x[2]
\* smallest quadratic form over basis states and superpositions of two of them, within a list of indices
Probe(M, ix) == {Ent(M, c, c) : c \in ix} \cup
   {RMul(RHalf, RAdd(RAdd(Ent(M, p[1], p[1]), Ent(M, p[2], p[2])), RAdd(RMul(IPow(k), Ent(M, p[1], p[2])), RMul(IPow(4-k), Ent(M, p[2], p[1]))))) :
      p \in {x \in ix \X ix : x[1] # x[2]}, k \in 0..3}
Lowest(M, ix, x) == IsReal(x) /\ \A y \in {y \in Probe(M, ix) : IsReal(y)} : RLe(x, y)
Ground(e, M, ix) ==
  LET v == VecOf(e.out.v.v) x == e.out.v.e IN
  IF NormSq(v) # ROne THEN "not a unit vector"
  ELSE IF ~(DOMAIN v \subseteq ix) THEN "state outside the sector"
  ELSE IF MVec(M, v) # VScl(x, v) THEN "not an eigenstate of that energy"
  ELSE IF ~Lowest(M, ix, x) THEN "not the lowest energy"
  ELSE "ok"
Gates(t) == [i \in 1..Len(t) |-> <<t[i][2], <<t[i][1]>> >>]
ValueSum(ts, vs, off) == RSum([i \in 1..Len(ts) |-> ReHalf(RMul(ts[i].c, vs[off + i]))])
Offset(os, i) == FoldLeft(LAMBDA acc, j: acc + Len(os[j]), 0, [j \in 1..(i-1) |-> j])
\* order of the basis recovered from the operator sum 2^m n_m
Lab(m, d) == [i \in 1..d |-> LET c == {x \in 1..Len(m.es) : m.es[x].i = i-1 /\ m.es[x].j = i-1} IN IF c = {} THEN RZero ELSE m.es[CHOOSE x \in c : TRUE].v]
Step(s, e) ==
  CASE e.op = "expand" ->
         IF e.bad = 1 THEN Chk(IsExc(e), "expand: invalid matrix accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("expand: failed", s)
         ELSE IF ~Simple("q", e.out.v) \/ ~Distinct(e.out.v) THEN Rej("expand: malformed operator", s)
         ELSE LET A == Stored(e.out.v) IN
              IF Width(A) > e.n THEN Rej("expand: qubits outside the register", s)
              ELSE IF Mat("q", A, e.n) # MatOf(e.es) THEN Rej("expand: another matrix", s)
              ELSE Chk(A = Expand(MatOf(e.es), e.n), "expand: coefficients", s)
    [] e.op = "labels" -> Chk(IsOk(e) /\ Simple("q", e.out.v) /\ Stored(e.out.v) = OpOf("q", e.ts), "operator of labels: wrong operator", s)
    [] e.op = "reverse" ->
         LET A == OpOf("q", e.ts) n == QubitsOf(A, e.ns) IN
         IF n < Width(A) THEN Chk(IsExc(e), "reverse: too few qubits accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("reverse: failed", s)
         ELSE Chk(Simple("q", e.out.v.r) /\ Stored(e.out.v.r) = Reversed(A, n) /\ Stored(e.out.v.a) = A, "reverse: wrong operator", s)
    [] e.op = "sparse" ->
         LET A == IF e.k = "f" THEN Stored(e.ts) ELSE OpOf(e.k, e.ts) n == IF e.ns # <<>> THEN e.ns[1] ELSE IF e.w # <<>> THEN e.w[1] ELSE Width(A) IN
         IF n < Width(A) THEN Chk(IsExc(e), "matrix: too few qubits accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("matrix: failed", s)
         ELSE IF e.out.v.d # <<P2(n), P2(n)>> THEN Rej("matrix: shape", s)
         ELSE Chk(MatOf(e.out.v.es) = Mat(e.k, A, n), "matrix: wrong entries", s)
    [] e.op = "expect" ->     \* quadratic form, summed over an ensemble
         LET M == Denot(e) M2 == IF e.rev = 1 THEN Mat("q", Reversed(OpOf("q", e.ts), e.n), e.n) ELSE M vs == States(e) IN
         IF ~IsOk(e) THEN Rej("expectation: failed", s)
         ELSE Chk(e.out.v = RSum([i \in 1..Len(vs) |-> RMul(e.ps[i], Quad(M2, vs[i]))]), "expectation: not the quadratic form", s)
    [] e.op = "density" ->
         LET vs == States(e) IN
         Chk(IsOk(e) /\ IsMat(e.out.v, Collect(FlattenSeq([i \in 1..Len(vs) |-> TermSeq(Outer(e.ps[i], vs[i]))])), P2(e.n)), "density matrix: wrong", s)
    [] e.op = "inner" -> LET vs == States(e) IN Chk(IsOk(e) /\ e.out.v = VDot(vs[1], vs[2]), "inner product: wrong", s)
    [] e.op = "diag" ->
         IF e.bad = 1 THEN Chk(IsExc(e), "diagonal part: accepted another type", s)
         ELSE IF ~IsOk(e) THEN Rej("diagonal part: failed", s)
         ELSE LET M == Mat("f", Stored(e.ts), e.n) D == Mat("f", Stored(e.out.v.d), e.n) R == Mat("f", Stored(e.out.v.r), e.n) IN
              IF Width(Stored(e.out.v.d)) > e.n \/ Width(Stored(e.out.v.r)) > e.n THEN Rej("diagonal part: width", s)
              ELSE IF ~Diagonal(D) THEN Rej("diagonal part: not diagonal", s)
              ELSE IF DiagPart(R) # OZero THEN Rej("diagonal part: remainder has diagonal entries", s)
              ELSE IF OAdd(D, R) # M THEN Rej("diagonal part: parts do not add up", s)
              ELSE Chk(Mat("f", Stored(e.out.v.a), e.n) = M, "diagonal part: operator changed", s)
    [] e.op = "evaluate" ->
         IF ~IsOk(e) THEN Rej("evaluate: failed", s)
         ELSE Chk(e.out.v = RSum([i \in 1..Len(e.os) |-> ValueSum(e.os[i], e.vs, Offset(e.os, i))]), "evaluate: not the weighted sum", s)
    [] e.op = "circuits" ->
         IF ~IsOk(e) THEN Rej("term circuits: failed", s)
         ELSE IF Len(e.out.v) # Len(e.ts) THEN Rej("term circuits: number of circuits", s)
         ELSE Chk(\A i \in 1..Len(e.ts) : e.out.v[i] = Gates(e.ts[i].f), "term circuits: gates", s)
    [] e.op = "random" ->
         IF ~IsOk(e) THEN Rej("random operator: failed", s)
         ELSE IF ~Simple("q", e.out.v) \/ ~Distinct(e.out.v) \/ Len(e.out.v) # e.nt THEN Rej("random operator: number of terms", s)
         ELSE IF \E i \in 1..Len(e.out.v) : Len(e.out.v[i].f) # e.loc THEN Rej("random operator: locality", s)
         ELSE IF \E i \in 1..Len(e.out.v) : \E j \in 1..e.loc : e.out.v[i].f[j][1] \notin 0..(e.n-1) THEN Rej("random operator: qubits", s)
         ELSE Chk(\A i \in 1..Len(e.out.v) : LET m == e.out.v[i].m IN IF e.fixed = 1 THEN m = e.max ELSE m <= e.max /\ -m <= e.max, "random operator: coefficients", s)
    [] e.op = "config" -> Chk(IsOk(e) /\ e.out.v.d = P2(e.n) /\ e.out.v.ix = << <<Idx({e.occ[i] : i \in 1..Len(e.occ)}, e.n), 1>> >>, "configuration state: wrong", s)
    [] e.op = "numidx" -> Chk(IsOk(e) /\ Len(e.out.v) = Cardinality({e.out.v[i] : i \in 1..Len(e.out.v)})
                                /\ {e.out.v[i] : i \in 1..Len(e.out.v)} = {c \in 0..(P2(e.n)-1) : PopCount(c, e.n) = e.ne}, "number indices: wrong", s)
    [] e.op = "restrict" ->     \* block of the states with that number, in the order of the reported indices
         IF ~IsOk(e) THEN Rej("restriction: failed", s)
         ELSE IF {e.ix[i] : i \in 1..Len(e.ix)} # {c \in 0..(P2(e.n)-1) : PopCount(c, e.n) = e.ne} THEN Rej("restriction: indices", s)
         ELSE Chk(IsMat(e.out.v, Block(Denot(e), e.ix), Len(e.ix)), "restriction: wrong block", s)
    [] e.op = "preserve" ->
         LET A == NormalForm(Stored(e.ts)) ref == {e.ref[i] : i \in 1..Len(e.ref)}
             S == Sector(e.n, ref, e.lev, e.spin) IN
         IF \E t \in DOMAIN A : Charge(t) # 0 THEN Chk(IsExc(e), "sector matrix: non-conserving operator accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("sector matrix: failed", s)
         ELSE LET d == e.out.v.lab.d[1] lab == Lab(e.out.v.lab, d) IN
              IF d # Cardinality(S) THEN Rej("sector matrix: size", s)
              ELSE IF \E i \in 1..d : lab[i] \notin {RInt(c) : c \in S} THEN Rej("sector matrix: states", s)
              ELSE LET ix == TLCEval([i \in 1..d |-> CHOOSE c \in S : RInt(c) = lab[i]]) IN
                   IF Cardinality({ix[i] : i \in 1..d}) # d THEN Rej("sector matrix: states repeated", s)
                   ELSE IF ix[1] # Idx(ref, e.n) THEN Rej("sector matrix: reference is not first", s)
                   ELSE IF ~Diagonal(MatOf(e.out.v.lab.es)) THEN Rej("sector matrix: number operators", s)
                   ELSE Chk(IsMat(e.out.v.m, Block(Mat("f", A, e.n), ix), d), "sector matrix: wrong entries", s)
    [] e.op = "spectrum" ->    \* Hermitian: power sums; e.out.v = [d, asc, ps]
         LET M == Denot(e) IN
         IF ~IsOk(e) THEN Rej("spectrum: failed", s)
         ELSE IF e.out.v.d # P2(e.n) THEN Rej("spectrum: number of eigenvalues", s)
         ELSE IF e.out.v.asc # 1 THEN Rej("spectrum: not in order", s)
         ELSE Chk(\A k \in 1..Len(e.out.v.ps) : e.out.v.ps[k] = TrM(MPow(M, k)), "spectrum: power sums differ", s)
    [] e.op = "ground" -> IF ~IsOk(e) THEN Rej("ground state: failed", s)
                          ELSE LET g == Ground(e, Denot(e), IF e.ne = -1 THEN 0..(P2(e.n)-1) ELSE {c \in 0..(P2(e.n)-1) : PopCount(c, e.n) = e.ne}) IN
                               Chk(g = "ok", "ground state: " \o g, s)
    [] e.op = "energy" -> IF ~IsOk(e) THEN Rej("ground state: failed", s)
                          ELSE LET M == Denot(e) ix == {c \in 0..(P2(e.n)-1) : e.ne = -1 \/ PopCount(c, e.n) = e.ne} IN
                               Chk(Lowest(M, ix, e.out.v) /\ (\E c \in ix : Ent(M, c, c) = e.out.v), "ground state: energy", s)
    [] e.op = "adjoint" -> Chk(IsOk(e) /\ e.out.v.d = <<e.d[2], e.d[1]>> /\ MatOf(e.out.v.es) = Dagger(MatOf(e.es)), "adjoint of a matrix: wrong", s)
    [] e.op = "hermitian" -> Chk(IsOk(e) /\ e.out.v = (IF Dagger(MatOf(e.es)) = MatOf(e.es) THEN 1 ELSE 0), "is Hermitian: wrong", s)
    [] OTHER -> Rej("unknown event " \o e.op, s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
