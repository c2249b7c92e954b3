-------------------------------- MODULE Chem ---------------------------------
(* Model Hamiltonians and operators of quantum chemistry, by their formulas.  *)
EXTENDS Tensors
Half == RHalf
\* ---- lattices: sites 0 .. x*y-1 row by row; an edge is a set of two sites ---------------
Site(x, i, j) == (j * x) + i
LineEdges(n, per) == {{i, i + 1} : i \in 0..(n - 2)} \cup (IF per = 1 /\ n > 1 THEN {{0, n - 1}} ELSE {})
Edges(x, y, per) ==
  UNION {{{Site(x, i, j) : i \in E} : j \in 0..(y-1)} : E \in LineEdges(x, per)}
  \cup UNION {{{Site(x, i, j) : j \in E} : i \in 0..(x-1)} : E \in LineEdges(y, per)}
Up(s) == 2 * s
Down(s) == (2 * s) + 1
ASum(S, Op(_)) == LET q == SetToSeq(S) IN Collect(FlattenSeq(TLCEval([i \in 1..Len(q) |-> TermSeq(Op(q[i]))])))
Hop(i, j) == Collect(<< << << <<i, 1>>, <<j, 0>> >>, ROne>>, << << <<j, 1>>, <<i, 0>> >>, ROne>> >>)
Num1(i, phs) == IF phs = 1 THEN OSub(FNum(i), OConst(Half)) ELSE FNum(i)
Pair(i, j, phs) == OMul("f", Num1(i, phs), Num1(j, phs))
Lo(E) == Min(E)
Hi(E) == Max(E)
Spinless(x, y, t, u, mu, per, phs) ==
  OSum("f", << ASum(Edges(x, y, per), LAMBDA E: OAdd(OScale(RNeg(t), Hop(Lo(E), Hi(E))), OScale(u, Pair(Lo(E), Hi(E), phs)))),
               ASum(0..((x * y) - 1), LAMBDA s: OScale(RNeg(mu), FNum(s))) >>)
Spinful(x, y, t, u, mu, h, per, phs) ==
  OSum("f", << ASum(Edges(x, y, per), LAMBDA E: OScale(RNeg(t), OAdd(Hop(Up(Lo(E)), Up(Hi(E))), Hop(Down(Lo(E)), Down(Hi(E)))))),
               ASum(0..((x * y) - 1), LAMBDA s:
                  OSum("f", << OScale(u, Pair(Up(s), Down(s), phs)),
                               OScale(RNeg(RAdd(mu, h)), FNum(Up(s))), OScale(RSub(h, mu), FNum(Down(s))) >>)) >>)
Hubbard(e) == IF e.spinless = 1 THEN Spinless(e.x, e.y, e.t, e.u, e.mu, e.per, e.phs) ELSE Spinful(e.x, e.y, e.t, e.u, e.mu, e.h, e.per, e.phs)
\* complex hopping amplitudes: one direction of an edge has the amplitude, the other its conjugate; which is which is a
\* choice (the same for both spins)
Bonds(e) == UNION {{<<a[1], a[2]>>, <<a[2], a[1]>>} : a \in {<<Lo(E), Hi(E)>> : E \in Edges(e.x, e.y, e.per)}}
BondTerm(a, e, spin) == LET m(s) == IF e.spinless = 1 THEN s ELSE (2 * s) + spin IN << <<m(a[1]), 1>>, <<m(a[2]), 0>> >>
ComplexHop(A, e) ==
  LET N == NormalForm(A)
      spins == IF e.spinless = 1 THEN {0} ELSE {0, 1}
      hops == {BondTerm(a, e, sp) : a \in Bonds(e), sp \in spins} IN
  /\ SameOp(A, Adjoint("f", A))
  /\ SameOp(OSub(N, Collect(SetToSeq({<<f, Coef(N, f)>> : f \in hops}))), Hubbard([e EXCEPT !.t = RZero]))
  /\ \A a \in Bonds(e) :
        \E c \in {RNeg(e.t), RNeg(RConj(e.t))} :
           \A sp \in spins : Coef(N, BondTerm(a, e, sp)) = c
NumOp(n) == OSum("f", [m \in 1..n |-> FNum(m - 1)])
SzOp(n) == OSum("f", [m \in 1..n |-> OScale(IF m % 2 = 1 THEN ROne ELSE RNeg(ROne), FNum(m - 1))])
\* total spin raising operator of n spatial orbitals, S^2 commutes with what commutes with it and its adjoint
SPlus(n) == Collect(TLCEval([p \in 1..n |-> << << <<Up(p-1), 1>>, <<Down(p-1), 0>> >>, ROne>>]))
Commutes(A, B) == NormalForm(FComm(A, B)) = OZero
\* ---- the same operator on states of N particles ------------------------------------------
SameOn(A, B, n, N) == \A S \in kSubset(N, 0..(n-1)) : FrozenCol(A, {}, 0..(n-1), S) = FrozenCol(B, {}, 0..(n-1), S)
\* ---- integrals over spatial orbitals: functions from index tuples to numbers ---------------
IEnt(T, q) == IF q \in DOMAIN T THEN T[q] ELSE RZero
SpinOne(h) == LET s == TermSeq(h) IN Collect(FlattenSeq(TLCEval([i \in 1..Len(s) |->
    TLCEval([a \in 1..2 |-> << << <<(2 * s[i][1][1]) + a - 1, 1>>, <<(2 * s[i][1][2]) + a - 1, 0>> >>, s[i][2]>>])])))
SpinTwo(g) == LET s == TermSeq(g) IN Collect(FlattenSeq(TLCEval([i \in 1..Len(s) |->
    TLCEval([k \in 1..4 |-> LET a == (k-1) % 2 b == (k-1) \div 2 q == s[i][1] IN
      << << <<(2 * q[1]) + a, 1>>, <<(2 * q[2]) + b, 1>>, <<(2 * q[3]) + b, 0>>, <<(2 * q[4]) + a, 0>> >>, s[i][2]>>])])))
MolHam(c, h, g) == OSum("f", <<OConst(c), SpinOne(h), OScale(Half, SpinTwo(g))>>)
Sym8(g) == \A q \in DOMAIN g : \A r \in {<<q[2], q[1], q[4], q[3]>>, <<q[4], q[2], q[3], q[1]>>, <<q[1], q[3], q[2], q[4]>>} : IEnt(g, r) = g[q]
\* ---- coupled cluster generators ------------------------------------------------------------
Anti(A, ah) == IF ah = 1 THEN OSub(A, Adjoint("f", A)) ELSE A
GenSingle(x) == Collect(<< << << <<x.f[1], 1>>, <<x.f[2], 0>> >>, x.c>> >>)
GenDouble(x) == Collect(<< << << <<x.f[1], 1>>, <<x.f[2], 0>>, <<x.f[3], 1>>, <<x.f[4], 0>> >>, x.c>> >>)
Generator(ss, ds, ah) == Anti(OSum("f", [i \in 1..Len(ss) |-> GenSingle(ss[i])] \o [i \in 1..Len(ds) |-> GenDouble(ds[i])]), ah)
\* excitation from orbital o to v, summed over spin: commutes with the total spin
Exc(v, o) == Collect(<< << << <<Up(v), 1>>, <<Up(o), 0>> >>, ROne>>, << << <<Down(v), 1>>, <<Down(o), 0>> >>, ROne>> >>)
NOcc(ne) == (ne + 1) \div 2
PairsVO(n, ne) == LET occ == NOcc(ne) vir == (n \div 2) - occ IN
  IF vir <= 0 \/ occ = 0 THEN <<>> ELSE TLCEval([k \in 1..(vir * occ) |-> <<occ + ((k-1) \div occ), (k-1) % occ>>])
PairsOf(m) == FlattenSeq(TLCEval([i \in 1..m |-> TLCEval([j \in 1..(m - i) |-> <<i, i + j>>])]))
NParams(n, ne) == LET m == Len(PairsVO(n, ne)) IN m + ((m * (m + 1)) \div 2)
Singlet(t, n, ne, ah) ==
  LET P == PairsVO(n, ne) m == Len(P) Q == PairsOf(m)
      E(i) == Exc(P[i][1], P[i][2]) IN
  Anti(OSum("f", [i \in 1..m |-> OScale(t[i], E(i))]
              \o [i \in 1..m |-> OScale(t[m + i], OMul("f", E(i), E(i)))]
              \o [k \in 1..Len(Q) |-> OScale(t[(2 * m) + k], OMul("f", E(Q[k][1]), E(Q[k][2])))]), ah)
\* amplitudes of the excitations, in the order of the parameters
Packed(ss, ds, n, ne) ==
  LET P == PairsVO(n, ne) m == Len(P) Q == PairsOf(m) IN
  [i \in 1..m |-> IEnt(ss, <<Up(P[i][1]), Up(P[i][2])>>)]
  \o [i \in 1..m |-> IEnt(ds, <<Up(P[i][1]), Up(P[i][2]), Down(P[i][1]), Down(P[i][2])>>)]
  \o [k \in 1..Len(Q) |-> LET a == P[Q[k][1]] b == P[Q[k][2]] IN IEnt(ds, <<Up(a[1]), Up(a[2]), Up(b[1]), Up(b[2])>>)]
=============================================================================
