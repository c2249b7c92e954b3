-------------------------------- MODULE TV_Chem ------------------------------
(* Traces of the model Hamiltonians and chemistry constructions: every event  *)
(* is one construction with its parameters and what came out.  Arrays are     *)
(* lists of their non-zero entries [f |-> indices, c |-> value].              *)
EXTENDS TraceLib, Chem
VARIABLES sid, l, st
Stored(ts) == TLCEval(Collect([i \in 1..Len(ts) |-> <<ts[i].f, ts[i].c>>]))
\* arrays as operators
Term2(q) == << <<q[1], 1>>, <<q[2], 0>> >>
Term4(q) == << <<q[1], 1>>, <<q[2], 1>>, <<q[3], 0>>, <<q[4], 0>> >>
One(ts) == TLCEval(Collect([i \in 1..Len(ts) |-> <<Term2(ts[i].f), ts[i].c>>]))
Two(ts) == TLCEval(Collect([i \in 1..Len(ts) |-> <<Term4(ts[i].f), ts[i].c>>]))
Op3(c, one, two) == OSum("f", <<OConst(c), One(one), Two(two)>>)
Permuted(T, p) == LET s == TermSeq(T) IN Collect(TLCEval([i \in 1..Len(s) |-> << [k \in 1..4 |-> s[i][1][p[k]]], s[i][2]>>]))
\* entries (p,q) from entries of four indices
Slice(T, Sel(_), Two2(_)) == LET s == SelectSeq(TermSeq(T), LAMBDA x: Sel(x[1])) IN Collect(TLCEval([i \in 1..Len(s) |-> <<Two2(s[i][1]), s[i][2]>>]))
JMat(T) == Slice(T, LAMBDA q: q[1] = q[4] /\ q[2] = q[3], LAMBDA q: <<q[1], q[2]>>)
KMat(T) == Slice(T, LAMBDA q: q[1] = q[3] /\ q[2] = q[4], LAMBDA q: <<q[1], q[2]>>)
SpinOrbs(S) == UNION {{2 * i, (2 * i) + 1} : i \in S}
Elems(q) == {q[i] : i \in 1..Len(q)}
SpinSeq(q) == TLCEval([k \in 1..(2 * Len(q)) |-> (2 * q[((k - 1) \div 2) + 1]) + ((k - 1) % 2)])
\* new Hamiltonian B, over the active orbitals in the order given, is what A does with the core filled
ActiveOk(A, core, active, B) == SameFrozen(A, SpinOrbs(Elems(core)), SpinOrbs(Elems(active)), Relabel(B, SpinSeq(active)))
EvenT(T) == Slice(T, LAMBDA q: \A i \in 1..Len(q) :
                         q[i] % 2 = 0, LAMBDA q: [i \in 1..Len(q) |-> q[i] \div 2])
Must(e, what, cond, s) == IF ~IsOk(e) THEN Rej(what \o ": failed", s) ELSE Chk(cond, what \o ": wrong result", s)
MustFail(e, what, s) == Chk(IsExc(e), what \o ": invalid input accepted", s)
Step(s, e) ==
  CASE e.op = "hubbard" -> Must(e, "Hubbard model", IF e.tc = 1 THEN ComplexHop(Stored(e.out.v), e) ELSE SameOp(Stored(e.out.v), Hubbard(e)), s)
    [] e.op = "numop" -> Must(e, "number operator",
            SameOp(Stored(e.out.v), IF e.mode = <<>> THEN OScale(e.c, NumOp(e.n)) ELSE OScale(e.c, FNum(e.mode[1]))), s)
    [] e.op = "gnum" -> Must(e, "site number operator", SameOp(Stored(e.out.v), Num1(e.i, e.phs)), s)
    [] e.op = "gint" -> Must(e, "site interaction", SameOp(Stored(e.out.v), Pair(e.i, e.j, e.phs)), s)
    [] e.op = "reduced" ->
         IF ~IsOk(e) THEN Rej("reduced Hamiltonian: failed", s)
         ELSE IF e.out.v.one # <<>> THEN Rej("reduced Hamiltonian: has a one-body part", s)
         ELSE IF e.out.v.n # e.n \/ e.out.v.kept # 1 THEN Rej("reduced Hamiltonian: shape or argument", s)
         ELSE IF e.out.v.c # e.c THEN Rej("reduced Hamiltonian: constant", s)
         ELSE Chk(SameOn(Op3(e.c, e.one, e.two), Op3(e.out.v.c, <<>>, e.out.v.two), e.n, e.ne), "reduced Hamiltonian: differs on the particles it is for", s)
    [] e.op = "tensors" ->    \* e.half: whether the factor 1/2 is included
         LET H == SpinOne(Stored(e.one)) G == SpinTwo(Stored(e.two)) IN
         IF ~IsOk(e) THEN Rej("spin orbital tensors: failed", s)
         ELSE IF e.out.v.n # 2 * e.n THEN Rej("spin orbital tensors: shape", s)
         ELSE IF One(e.out.v.one) # H THEN Rej("spin orbital tensors: one-body", s)
         ELSE Chk(Two(e.out.v.two) = (IF e.half = 1 THEN OScale(Half, G) ELSE G), "spin orbital tensors: two-body", s)
    [] e.op = "antisym" -> LET T == Stored(e.two) IN Must(e, "antisymmetrized integrals", Stored(e.out.v) = OSub(Permuted(T, <<1, 2, 4, 3>>), T), s)
    [] e.op = "antisymspin" ->     \* of a molecule: over spin orbitals
         LET g == TermSeq(SpinTwo(Stored(e.two)))
             T == Collect(TLCEval([i \in 1..Len(g) |-> << [k \in 1..4 |-> g[i][1][k][1]], g[i][2]>>])) IN
         Must(e, "antisymmetrized integrals of a molecule", Stored(e.out.v) = OSub(Permuted(T, <<1, 2, 4, 3>>), T), s)
    [] e.op = "jmat" -> Must(e, "Coulomb integrals", Stored(e.out.v) = JMat(Stored(e.two)), s)
    [] e.op = "kmat" -> Must(e, "exchange integrals", Stored(e.out.v) = KMat(Stored(e.two)), s)
    [] e.op = "active" ->
         LET A == MolHam(RZero, Stored(e.one), Stored(e.two)) IN
         IF e.act = <<>> THEN MustFail(e, "active space", s)
         ELSE IF ~IsOk(e) THEN Rej("active space: failed", s)
         ELSE IF e.out.v.n # Len(e.act) \/ e.out.v.kept # 1 THEN Rej("active space: shape or argument", s)
         ELSE Chk(ActiveOk(A, e.core, e.act, MolHam(e.out.v.c, Stored(e.out.v.one), Stored(e.out.v.two))), "active space: another Hamiltonian", s)
    [] e.op = "molham" ->
         LET A == MolHam(e.c, Stored(e.one), Stored(e.two)) IN
         IF ~IsOk(e) THEN Rej("molecular Hamiltonian: failed", s)
         ELSE IF e.out.v.n # 2 * (IF e.all = 1 THEN e.n ELSE Len(e.act)) THEN Rej("molecular Hamiltonian: number of modes", s)
         ELSE IF e.all = 1 THEN Chk(SameOp(A, Stored(e.out.v.t)), "molecular Hamiltonian: another operator", s)
         ELSE Chk(ActiveOk(A, e.core, e.act, Stored(e.out.v.t)), "molecular Hamiltonian: another operator in the active space", s)
    [] e.op = "moldata" ->     \* a molecule from its Hamiltonian (spin independent), and back
         IF ~IsOk(e) THEN Rej("molecule of a Hamiltonian: failed", s)
         ELSE IF e.out.v.n # e.n \/ e.out.v.nq # 2 * e.n \/ e.out.v.ne # e.ne \/ e.out.v.mult # e.mult THEN Rej("molecule of a Hamiltonian: metadata", s)
         ELSE IF e.out.v.c # e.c THEN Rej("molecule of a Hamiltonian: constant", s)
         ELSE Chk(SameOp(Stored(e.out.v.t), MolHam(e.c, Stored(e.one), Stored(e.two))), "molecule of a Hamiltonian: another Hamiltonian", s)
    [] e.op = "uccgen" -> Must(e, "coupled cluster generator",
            SameOp(Stored(e.out.v), Generator(e.ss, e.ds, e.ah)), s)
    [] e.op = "uccconv" ->
         IF ~IsOk(e) THEN Rej("amplitude lists: failed", s)
         ELSE IF Stored(e.out.v.ss) # Stored(e.ss) \/ Stored(e.out.v.ds) # Stored(e.ds) THEN Rej("amplitude lists: other amplitudes", s)
         ELSE Chk(Len(e.out.v.ss) = Len(e.ss) /\ Len(e.out.v.ds) = Len(e.ds), "amplitude lists: repeated amplitudes", s)
    [] e.op = "npar" -> IF e.n % 2 = 1 THEN MustFail(e, "number of parameters", s) ELSE Must(e, "number of parameters", e.out.v = NParams(e.n, e.ne), s)
    [] e.op = "singlet" -> IF e.n % 2 = 1 THEN MustFail(e, "singlet generator", s)
                           ELSE Must(e, "singlet generator", SameOp(Stored(e.out.v), Singlet(e.t, e.n, e.ne, e.ah)), s)
    [] e.op = "packed" -> Must(e, "packed amplitudes", e.out.v = Packed(Stored(e.ss), Stored(e.ds), e.n, e.ne), s)
    [] e.op = "units" -> Must(e, "units of length", e.out.v = 1, s)
    [] e.op = "reject" -> MustFail(e, e.what, s)
    [] OTHER -> Rej("unknown event " \o e.op, s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
