------------------------------- MODULE TV_Circ ------------------------------
(* Traces of the circuit layer: matrices, gate algebra, binding, building.   *)
(* State of a session: a register file of circuits (Circ.tla).               *)
EXTENDS TraceLib, Decomp, Expr, Layout
VARIABLES sid, l, st

\* numeric operations: [n, p : angles, w : wrapper word, q]
GateOf(o) == GWrap(MkGate(o.n, o.p), o.w)
OpsOf(s) == TLCEval([i \in 1..Len(s) |-> [g |-> GateOf(s[i]), q |-> s[i].q]])
\* symbolic operations: params are linear expressions
Lins(ps) == TLCEval([i \in 1..Len(ps) |-> LinNorm(ps[i])])
SOp(o) == [g |-> GWrap(MkGate(o.n, Lins(o.p)), o.w), q |-> o.q]
SOps(s) == TLCEval([i \in 1..Len(s) |-> SOp(s[i])])
Mp(m) == TLCEval([i \in 1..Len(m) |-> <<m[i][1], LinNorm(m[i][2])>>])
\* observed operations: [g |-> [n,p,d,c], q]
OOp(o) == [g |-> [n |-> o.g.n, p |-> Lins(o.g.p), d |-> o.g.d, c |-> o.g.c], q |-> o.q]
OCirc(c) == [n |-> c.n, ops |-> TLCEval([i \in 1..Len(c.ops) |-> OOp(c.ops[i])])]
ORegs(r) == TLCEval([i \in 1..Len(r) |-> OCirc(r[i])])

OOps(r) == TLCEval([i \in 1..Len(r) |-> OOp(r[i])])

RegStep(s, e, newregs, what) ==
  IF ORegs(e.out.v.regs) = newregs THEN Ok(newregs)
  ELSE IF Len(e.out.v.regs) # Len(newregs) THEN Rej(what \o ": wrong number of circuits", s)
  ELSE IF \E i \in 1..Len(s) : OCirc(e.out.v.regs[i]) # s[i]
    THEN Rej(what \o ": an existing circuit was modified", s)
  ELSE IF e.out.v.regs[Len(newregs)].n # newregs[Len(newregs)].n
    THEN Rej(what \o ": wrong qubit count", s)
  ELSE Rej(what \o ": wrong operations", s)

GroundP(ps) == \A i \in 1..Len(ps) : ps[i].t = <<>>
NumP(ps) == [i \in 1..Len(ps) |-> ps[i].k]

Step(s, e) ==
  CASE e.op = "unitary" ->
         IF ~IsOk(e) THEN Rej("unitary: no value", s) ELSE
         LET U0 == Unitary(OpsOf(e.ops), e.n) IN
         IF Len(e.out.v) # Pow2(e.n) THEN Rej("unitary: wrong dimension", s)
         ELSE Chk(U0 = e.out.v, "unitary: differs from the ordered product of embedded gates", s)
    [] e.op = "apply" ->
         IF ~IsOk(e) THEN Rej("apply: no value", s) ELSE
         Chk(RunOps(OpsOf(e.ops), e.n, e.vec) = e.out.v, "apply: state differs from successive application", s)
    \* ---- gate algebra -----------------------------------------------------
    [] e.op = "gate" ->
         LET g == GateOf(e) IN
         IF ~IsOk(e) THEN Rej("gate: no value", s)
         ELSE IF e.out.v.arity # GArity(g) THEN Rej("gate: number of qubits", s)
         ELSE IF e.out.v.canon # [n |-> g.n, d |-> g.d, c |-> g.c] THEN Rej("gate: wrapper structure", s)
         ELSE IF e.out.v.params # e.p THEN Rej("gate: parameters differ from the wrapped gate's", s)
         ELSE IF e.out.v.mat # GMat(g) THEN Rej("gate: matrix", s)
         ELSE IF e.out.v.dmat # Adj(GMat(g)) THEN Rej("gate: dagger matrix", s)
         ELSE IF e.out.v.dd # 1 THEN Rej("gate: double dagger is not the gate", s)
         ELSE IF e.out.v.selfadj # (IF g.n \in HermitianGates THEN 1 ELSE 0) THEN Rej("gate: self-adjointness", s)
         ELSE IF e.out.v.cmat # CtrlM(GMat(g), e.out.v.ck) THEN Rej("gate: controlled matrix", s)
         ELSE IF e.out.v.carity # GArity(g) + e.out.v.ck THEN Rej("gate: controlled number of qubits", s)
         ELSE Ok(s)
    [] e.op = "gate_eq" ->
         LET g == GateOf(e.a)  h == GateOf(e.b) IN
         IF ~IsOk(e) THEN Rej("gate_eq: no value", s)
         ELSE IF g = h THEN Chk(e.out.v = 1, "gate_eq: equal gates compare unequal", s)
         ELSE IF GArity(g) # GArity(h) \/ GMat(g) # GMat(h)
              THEN Chk(e.out.v = 0, "gate_eq: different gates compare equal", s)
         ELSE Ok(s)
    [] e.op = "gate_other" -> IF ~IsOk(e) THEN Rej("gate_other: no value", s)
                              ELSE Chk(\A i \in 1..Len(e.out.v) : e.out.v[i] = 0, "gate_other: a gate equals something that is not a gate", s)
    [] e.op = "bad_control" -> Chk(IsExc(e), "controlled: non-positive count accepted", s)
    \* symbolic gate: bind / replace / free symbols of a wrapped gate
    [] e.op = "sgate" ->
         LET g == GWrap(MkGate(e.n, Lins(e.p)), e.w)
             gb == [g EXCEPT !.p = ParamsSubst(g.p, Mp(e.map))]
             gr == [g EXCEPT !.p = Lins(e.new)]
             O1(o) == [n |-> o.n, p |-> Lins(o.p), d |-> o.d, c |-> o.c]
         IN IF ~IsOk(e) THEN Rej("sgate: no value", s)
         ELSE IF e.out.v.free # ParamSyms(g.p) THEN Rej("sgate: free symbols", s)
         ELSE IF O1(e.out.v.bound) # gb THEN Rej("sgate: bind", s)
         ELSE IF e.out.v.bfree # ParamSyms(gb.p) THEN Rej("sgate: free symbols after bind", s)
         ELSE IF O1(e.out.v.repl) # gr THEN Rej("sgate: replace_params", s)
         ELSE IF O1(e.out.v.orig) # g THEN Rej("sgate: original changed", s)
         ELSE IF Has(e.out.v, "bmat") THEN
              (IF ~GroundP(gb.p) THEN Rej("sgate: numeric although symbols remain", s)
               ELSE IF GMat([gb EXCEPT !.p = NumP(gb.p)]) # e.out.v.bmat THEN Rej("sgate: matrix after bind", s)
               ELSE Chk(~Has(e.out.v, "smat") \/ e.out.v.smat = e.out.v.bmat, "sgate: substituting in the matrix of the symbolic gate", s))
         ELSE Ok(s)
    [] e.op = "mpo" ->
         LET ps == Lins(e.p)  b == ParamsSubst(ps, Mp(e.map)) IN
         IF ~IsOk(e) THEN Rej("mpo: no value", s)
         ELSE IF e.out.v.free # ParamSyms(ps) THEN Rej("mpo: free symbols", s)
         ELSE IF Lins(e.out.v.bound) # b THEN Rej("mpo: bind", s)
         ELSE IF e.out.v.bfree # ParamSyms(b) THEN Rej("mpo: free symbols after bind", s)
         ELSE IF Lins(e.out.v.orig) # ps THEN Rej("mpo: original changed", s)
         ELSE IF Has(e.out.v, "vec") THEN
              Chk(e.out.v.vec = [i \in 1..Len(b) |-> RMul(RPhase(b[i].k[1], b[i].k[2]), e.vec[i])], "mpo: apply", s)
         ELSE Ok(s)
    [] e.op = "mpo_bad" -> Chk(IsExc(e), "mpo: invalid parameters or state accepted", s)
    \* ---- building ---------------------------------------------------------
    [] e.op = "new" ->
         IF e.nbad = 1 THEN Chk(IsExc(e), "new: invalid qubit count accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("new: no value", s)
         ELSE RegStep(s, e, Append(s, MkCirc(SOps(e.ops), e.n)), "new")
    [] e.op = "addop" ->
         IF ~IsOk(e) THEN Rej("addop: no value", s)
         ELSE RegStep(s, e, Append(s, AppendOp(s[e.i], SOp(e.o))), "addop")
    [] e.op = "addcirc" ->
         IF ~IsOk(e) THEN Rej("addcirc: no value", s)
         ELSE RegStep(s, e, Append(s, Concat(s[e.i], s[e.j])), "addcirc")
    [] e.op = "bind" ->
         IF ~IsOk(e) THEN Rej("bind: no value", s)
         ELSE RegStep(s, e, Append(s, BindC(s[e.i], Mp(e.map))), "bind")
    [] e.op = "free" ->
         IF ~IsOk(e) THEN Rej("free: no value", s)
         ELSE IF ORegs(e.out.v.regs) # s THEN Rej("free: an existing circuit was modified", s)
         ELSE Chk(e.out.v.free = FreeSyms(s[e.i]), "free: wrong symbols or order", s)
    [] e.op = "split" ->
         IF ~IsOk(e) THEN Rej("split: no value", s)
         ELSE LET r == Runs(s[e.i].ops, e.pv, s[e.i].n)
                  o == e.out.v.runs IN
           IF ORegs(e.out.v.regs) # s THEN Rej("split: the circuit was modified", s)
           ELSE IF Len(o) # Len(r) THEN Rej("split: wrong number of parts", s)
           ELSE IF \E i \in 1..Len(r) : o[i].pv # r[i].pv THEN Rej("split: wrong predicate values", s)
           ELSE IF \E i \in 1..Len(r) : o[i].c.n # r[i].c.n THEN Rej("split: wrong qubit count", s)
           ELSE Chk(\A i \in 1..Len(r) : OCirc(o[i].c) = r[i].c, "split: wrong operations", s)
    [] e.op = "eq" ->
         IF ~IsOk(e) THEN Rej("eq: no value", s)
         ELSE Chk((e.out.v = 1) <=> (s[e.i] = s[e.j]), "eq: wrong answer", s)
    [] e.op = "reg_unitary" ->
         IF ~IsOk(e) THEN Rej("reg_unitary: no value", s)
         ELSE IF ~Ground(s[e.i]) THEN Rej("reg_unitary: symbols remain", s)
         ELSE Chk(CUnitary(s[e.i]) = e.out.v, "reg_unitary: unitary of the bound circuit", s)
    \* ---- user-defined gate definitions ---------------------------------------
    [] e.op = "defs" ->
         \* e.used: sequence of <<name number, variant number>> of the definitions used, in order
         LET names == {e.used[i][1] : i \in 1..Len(e.used)}
             conflict == \E i, j \in 1..Len(e.used) : e.used[i][1] = e.used[j][1] /\ e.used[i][2] # e.used[j][2]
         IN IF conflict THEN Chk(IsExc(e), "defs: conflicting definitions accepted", s)
            ELSE IF ~IsOk(e) THEN Rej("defs: no value", s)
            ELSE Chk(e.out.v = LET ss == SortedSeq(names) IN [i \in 1..Len(ss) |->
                        LET k == CHOOSE k \in 1..Len(e.used) : e.used[k][1] = ss[i] IN <<ss[i], e.used[k][2]>>],
                     "defs: not one definition per used gate", s)
    [] e.op = "def_eq" ->     \* <<name, definition variant, parameters>>: definitions, then gates, wrapped gates, operations, circuits
         IF ~IsOk(e) THEN Rej("def_eq: no value", s)
         ELSE LET d == IF e.a[1] = e.b[1] /\ e.a[2] = e.b[2] THEN 1 ELSE 0
                  g == IF e.a = e.b THEN 1 ELSE 0
              IN Chk(e.out.v = <<d, g, g, g, g, g, g>>, "def_eq: equality of user-defined gates", s)
    \* ---- serialization ---------------------------------------------------------
    [] e.op = "roundtrip" ->   \* e.ii: the circuits written, in order; appended when read back
         IF ~IsOk(e) THEN Rej("roundtrip: no value", s)
         ELSE IF \E i \in 1..Len(e.out.v.eq) : e.out.v.eq[i] # 1 THEN Rej("roundtrip: not equal to the original", s)
         ELSE IF \E i \in 1..Len(e.out.v.defs) : e.out.v.defs[i][1] # e.out.v.defs[i][2]
              THEN Rej("roundtrip: definitions of user-defined gates", s)
         ELSE RegStep(s, e, s \o [i \in 1..Len(e.ii) |-> s[e.ii[i]]], "roundtrip")
    [] e.op = "bad_data" -> Chk(IsExc(e), "bad_data: accepted", s)
    [] e.op = "expr_rt" ->
         IF ~IsOk(e) THEN Rej("expr_rt: no value", s)
         ELSE Chk(Len(e.out.v) = Len(e.exprs) /\ \A i \in 1..Len(e.exprs) : \A j \in 1..Len(e.env) :
                    Val(e.exprs[i], e.env[j]) = Val(e.out.v[i], e.env[j]), "expr_rt: parameter value changed", s)
    \* ---- decomposition -----------------------------------------------------------
    [] e.op = "decompose" ->     \* the driver's own rules: exact sequences
         LET o0 == SOps(e.ops)  rd == DecompAll(o0, e.rules) IN
         IF ~IsOk(e) THEN Rej("decompose: no value", s)
         ELSE IF e.out.v.n # e.n THEN Rej("decompose: number of qubits", s)
         ELSE IF OOps(e.out.v.orig) # o0 THEN Rej("decompose: the circuit was modified", s)
         ELSE Chk(OOps(e.out.v.whole) = rd, "decompose: wrong operations", s)
    [] e.op = "decompose_u3" ->  \* the library's rule, possibly followed by others: action per operation
         LET o0 == SOps(e.ops)  m == Mp(e.map)
             whole == OOps(e.out.v.whole)
             parts == TLCEval([i \in 1..Len(e.out.v.parts) |-> OOps(e.out.v.parts[i])])
             CU(ops) == CUnitary(BindC([n |-> e.n, ops |-> ops], m))
             Touch(o) == \E i \in 1..Len(e.rules) : Applies(e.rules[i], o)
             PartV(i) == IF ~Touch(o0[i]) THEN (IF parts[i] = <<o0[i]>> THEN "ok" ELSE "decompose: an operation no rule applies to was changed")
                         ELSE IF EqUpToPhase(CU(<<o0[i]>>), CU(parts[i])) THEN
                              (IF \E j \in 1..Len(parts[i]) : Applies(0, parts[i][j]) THEN "decompose: rule not applied" ELSE "ok")
                         ELSE IF o0[i].g.n = "U3" /\ o0[i].g.c > 0 /\ CU(parts[i]) = CU(DecompOp(o0[i], <<0>>))
                              THEN "decompose: relative phase of a controlled U3 lost"
                         ELSE "decompose: action changed"
             Vs == TLCEval([i \in 1..Len(o0) |-> PartV(i)])
             bad == {i \in 1..Len(o0) : Vs[i] # "ok"}
             bad2 == {i \in bad : Vs[i] # "decompose: relative phase of a controlled U3 lost"}
         IN
         IF ~IsOk(e) THEN Rej("decompose: no value", s)
         ELSE IF e.out.v.n # e.n THEN Rej("decompose: number of qubits", s)
         ELSE IF OOps(e.out.v.orig) # o0 THEN Rej("decompose: the circuit was modified", s)
         ELSE IF Len(parts) # Len(o0) \/ whole # FoldLeft(LAMBDA acc, x: acc \o x, <<>>, parts)
              THEN Rej("decompose: not the in-place replacement, in order", s)
         ELSE IF bad2 # {} THEN Rej(Vs[CHOOSE i \in bad2 : TRUE], s)
         ELSE IF bad # {} THEN Rej(Vs[CHOOSE i \in bad : TRUE], s)
         ELSE Ok(s)
    \* ---- generators and layouts ------------------------------------------------
    [] e.op = "layer" ->
         \* gate e.g (n, w) with parameter rows e.rows (or none) on e.qs, added to circuit e.ops on e.n qubits
         LET o0 == SOps(e.ops)
             uq == AppearOrder([i \in 1..Len(e.qs) |-> <<e.qs[i]>>])
             row(i) == IF e.rows = <<>> THEN <<>> ELSE Lins(e.rows[i])
             want == TLCEval([i \in 1..Len(uq) |-> [g |-> GWrap(MkGate(e.gn, row(i)), e.gw), q |-> <<uq[i]>>]])
             n1 == IF Len(uq) = 0 THEN e.n ELSE Max2(e.n, SetMax({uq[i] : i \in 1..Len(uq)}) + 1)
         IN IF ~IsOk(e) THEN Rej("layer: no value", s)
            ELSE IF OOps(e.out.v.orig.ops) # o0 \/ e.out.v.orig.n # e.n THEN Rej("layer: the given circuit was modified", s)
            ELSE IF e.out.v.c.n # n1 THEN Rej("layer: number of qubits", s)
            ELSE LET oo == OOps(e.out.v.c.ops) k == Len(o0) IN
              IF Len(oo) # k + Len(want) \/ SubSeq(oo, 1, k) # o0 THEN Rej("layer: not one gate per qubit after the given operations", s)
              ELSE Chk(\A i \in 1..Len(want) : \E j \in k+1..Len(oo) : oo[j] = want[i],
                       "layer: wrong gate, qubit or parameters", s)
    [] e.op = "ancilla" ->
         LET o0 == SOps(e.ops) IN
         IF ~IsOk(e) THEN Rej("ancilla: no value", s)
         ELSE IF OOps(e.out.v.orig.ops) # o0 \/ e.out.v.orig.n # e.n THEN Rej("ancilla: the given circuit was modified", s)
         ELSE IF e.out.v.c.n # e.n + e.k THEN Rej("ancilla: number of qubits", s)
         ELSE LET oo == OOps(e.out.v.c.ops)
                  onold(o) == \A i \in 1..Len(o.q) : o.q[i] < e.n
              IN IF SelectSeq(oo, LAMBDA o: onold(o) /\ o.g.n # "I") # SelectSeq(o0, LAMBDA o: o.g.n # "I") THEN Rej("ancilla: original operations changed", s)
              ELSE Chk(\A i \in 1..Len(oo) : onold(oo[i]) \/ oo[i].g.n = "I", "ancilla: not the identity on the new qubits", s)
    [] e.op = "layout" ->
         LET E0 == Edges(e.kind, e.x, e.y) IN
         IF ~IsOk(e) THEN Rej("layout: no value", s)
         ELSE IF \E i \in 1..Len(e.out.v.layers) : ~DisjointLayer(e.out.v.layers[i]) THEN Rej("layout: pairs of a layer overlap", s)
         ELSE IF UNION {PairsOf(e.out.v.layers[i]) : i \in 1..Len(e.out.v.layers)} # E0 THEN Rej("layout: layers do not cover the connected pairs", s)
         ELSE IF \E p \in E0 : Occurrences(p, e.out.v.layers) # (IF e.kind = "sycamore" THEN 2 ELSE 1)
              THEN Rej("layout: a pair occurs in the wrong number of layers", s)
         ELSE IF PairsOf(e.out.v.conn) # E0 \/ Len(e.out.v.conn) # Cardinality(E0) THEN Rej("layout: connectivity", s)
         ELSE Chk(e.out.v.layers2 = e.out.v.layers /\ e.out.v.conn2 = e.out.v.conn, "layout: changed by saving and loading", s)
    [] e.op = "same" -> \* something written and read back, as nested integer lists
         IF ~IsOk(e) THEN Rej("same: no value", s) ELSE Chk(e.out.v = e.val, "same: changed by saving and loading", s)
    [] OTHER -> Rej("unknown event", s)

Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
