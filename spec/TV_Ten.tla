-------------------------------- MODULE TV_Ten -------------------------------
(* Traces of programs over tensor representations.  st: heap of objects       *)
(* [k, n, v] ("P" polynomial tensor, "I" interaction operator, "R" density    *)
(* matrices), registers referring to them.  Every event reports the content   *)
(* of all registers after it.                                                 *)
EXTENDS TraceLib, Tensors
VARIABLES sid, l, st
Stored(ts) == TLCEval(Collect([i \in 1..Len(ts) |-> <<ts[i].f, ts[i].c>>]))
Obj(s, r) == s.heap[s.ref[r]]
Push(s, k, n, v) == [s EXCEPT !.heap = Append(@, [k |-> k, n |-> n, v |-> v]), !.ref = Append(@, Len(s.heap) + 1)]
Put(s, r, v) == [s EXCEPT !.heap[s.ref[r]].v = v]
Res(o, a, b) == CASE o = "add" -> OAdd(a, b) [] o = "sub" -> OSub(a, b) [] o = "mul" -> MulEl(a, b)
ScalRes(o, a, c) == CASE o \in {"adds", "radds"} -> OAdd(a, OConst(c)) [] o = "subs" -> OSub(a, OConst(c)) [] o = "rsubs" -> OSub(OConst(c), a)
                      [] o \in {"mul", "rmul"} -> OScale(c, a) [] o = "neg" -> ONeg(a) [] o = "mod" -> ModEl(a, c[1])
RegBad(s, regs) ==
  IF Len(regs) # Len(s.ref) THEN "number of registers"
  ELSE IF \E i \in 1..Len(regs) : regs[i].k # Obj(s, i).k THEN "kind of tensor"
  ELSE IF \E i \in 1..Len(regs) : regs[i].n # Obj(s, i).n THEN "number of modes"
  ELSE IF \E i \in 1..Len(regs) : Stored(regs[i].t) # Obj(s, i).v THEN "wrong entries"
  ELSE "ok"
Ending(e, what, s) == LET b == RegBad(s, e.regs) IN IF b = "ok" THEN Ok(s) ELSE Rej(what \o ": " \o b, s)
Val(e, cond, what, s) == IF ~IsOk(e) THEN Rej(what \o ": no value", s) ELSE IF ~cond THEN Rej(what \o ": wrong answer", s) ELSE Ending(e, what, s)
Upd(e, what, s, r) == IF ~IsOk(e) THEN Rej(what \o ": failed", s) ELSE Ending(e, what, IF e.inp = 1 THEN Put(s, e.i, r) ELSE Push(s, Obj(s, e.i).k, Obj(s, e.i).n, r))
Conv(e, what, s, k, want) ==     \* a conversion to tensors: any arrangement of the same operator
  IF ~IsOk(e) THEN Rej(what \o ": failed", s)
  ELSE LET r == e.regs[Len(e.regs)] v == Stored(r.t) n == IF e.ns # <<>> THEN e.ns[1] ELSE Width(want) IN
       IF r.k # k THEN Rej(what \o ": kind", s)
       ELSE IF r.n # n THEN Rej(what \o ": number of modes", s)
       ELSE IF ~SameOp(v, want) THEN Rej(what \o ": another operator", s)
       ELSE Ending(e, what, Push(s, k, n, v))
RMat(e) == MatOf(e.R)
State(e) == VecOf(e.v)
Step(s, e) ==
  CASE e.op = "new" -> IF ~IsOk(e) THEN Rej("new: failed", s) ELSE Ending(e, "new", Push(s, e.k, e.n, Stored(e.ts)))
    [] e.op = "alias" -> Ending(e, "alias", [s EXCEPT !.ref = Append(@, s.ref[e.i])])
    [] e.op = "bin" ->
         LET a == Obj(s, e.i) b == Obj(s, e.j) IN
         IF a.n # b.n THEN (IF IsExc(e) THEN Ending(e, e.o, s) ELSE Rej(e.o \o ": different numbers of modes accepted", s))
         ELSE Upd(e, e.o, s, Res(e.o, a.v, b.v))
    [] e.op = "scal" -> Upd(e, "scalar " \o e.o, s, ScalRes(e.o, Obj(s, e.i).v, e.c))
    [] e.op = "div" ->
         IF ~IsOk(e) THEN Rej("div: failed", s)
         ELSE LET a == Obj(s, e.i) r == Stored(e.regs[IF e.inp = 1 THEN e.i ELSE Len(e.regs)].t) IN
              IF OScale(e.c, r) # a.v THEN Rej("div: wrong entries", s)
              ELSE Ending(e, "div", IF e.inp = 1 THEN Put(s, e.i, r) ELSE Push(s, a.k, a.n, r))
    [] e.op = "eq" -> Val(e, e.out.v = (IF Obj(s, e.i).n = Obj(s, e.j).n /\ Obj(s, e.i).v = Obj(s, e.j).v THEN 1 ELSE 0), "eq", s)
    [] e.op = "get" -> Val(e, e.out.v = Coef(Obj(s, e.i).v, e.f), "element", s)
    [] e.op = "set" -> IF ~IsOk(e) THEN Rej("set element: failed", s)
                       ELSE Ending(e, "set element", Put(s, e.i, OAdd(OSub(Obj(s, e.i).v, KeepT(Obj(s, e.i).v, LAMBDA t: t = e.f)), Collect(<< <<e.f, e.c>> >>))))
    [] e.op = "settensor" ->    \* replace one array
         IF ~IsOk(e) THEN Rej("set tensor: failed", s)
         ELSE Ending(e, "set tensor", Put(s, e.i, OAdd(KeepT(Obj(s, e.i).v, LAMBDA t: KeyOf(t) # e.key), Stored(e.ts))))
    [] e.op = "iter" -> Val(e, Len(e.out.v) = Cardinality({e.out.v[i] : i \in 1..Len(e.out.v)})
                                 /\ {e.out.v[i] : i \in 1..Len(e.out.v)} \ {<<>>} = DOMAIN Obj(s, e.i).v \ {<<>>}
                                 /\ (<<>> \in DOMAIN Obj(s, e.i).v => <<>> \in {e.out.v[i] : i \in 1..Len(e.out.v)}), "terms", s)
    [] e.op = "unique" ->
         LET A == Obj(s, e.i).v Y == {e.out.v[i] : i \in 1..Len(e.out.v)} IN
         IF ~IsOk(e) THEN Rej("unique terms: failed", s)
         ELSE IF ~SymSupport(A, e.cx) THEN Ending(e, "unique terms", s)      \* says nothing about other tensors
         ELSE Val(e, Len(e.out.v) = Cardinality(Y) /\ Y \subseteq DOMAIN A /\ \A t \in DOMAIN A : Cardinality(Orbit(t, e.cx) \cap Y) = 1, "unique terms", s)
    [] e.op = "rot" -> IF ~IsOk(e) THEN Rej("rotation: failed", s)
                       ELSE Ending(e, "rotation", Put(s, e.i, Rotate(Obj(s, e.i).v, IF e.sp = 1 THEN Spatial(RMat(e)) ELSE RMat(e))))
    [] e.op = "proj" ->
         LET a == Obj(s, e.i) r == IF e.cnt = 1 THEN ProjCount(a.v, e.sel[1], e.exact) ELSE ProjSet(a.v, {e.sel[j] : j \in 1..Len(e.sel)}, e.exact) IN
         IF ~IsOk(e) THEN Rej("projection: failed", s) ELSE Ending(e, "projection", Push(s, a.k, a.n, r))
    [] e.op = "tofermion" -> IF ~IsOk(e) THEN Rej("to fermions: failed", s) ELSE Val(e, SameOp(Stored(e.out.v), Obj(s, e.i).v), "to fermions", s)
    [] e.op = "toint" ->
         LET A == Stored(e.ts) IN
         IF e.sym = 1 \/ ~Interaction(A) \/ (e.ns # <<>> /\ e.ns[1] < Width(A)) THEN
           (IF IsExc(e) THEN Ending(e, "to interaction operator", s) ELSE Rej("to interaction operator: invalid operator accepted", s))
         ELSE Conv(e, "to interaction operator", s, "I", A)
    [] e.op = "topoly" ->
         LET A == Stored(e.ts) IN
         IF e.ns # <<>> /\ e.ns[1] < Width(A) THEN (IF IsExc(e) THEN Ending(e, "to tensors", s) ELSE Rej("to tensors: too few modes accepted", s))
         ELSE Conv(e, "to tensors", s, "P", A)
    [] e.op = "normal" ->
         LET a == Obj(s, e.i) IN
         IF ~IsOk(e) THEN Rej("normal order: failed", s)
         ELSE LET v == Stored(e.regs[Len(e.regs)].t) IN
              IF v # NormalForm(a.v) THEN Rej("normal order: not the normal form", s) ELSE Ending(e, "normal order", Push(s, a.k, a.n, v))
    [] e.op = "herm" ->
         LET a == Obj(s, e.i) IN
         IF ~IsOk(e) THEN Rej("conjugate: failed", s)
         ELSE LET v == Stored(e.regs[Len(e.regs)].t) IN
              IF ~SameOp(v, Adjoint("f", a.v)) THEN Rej("conjugate: wrong operator", s) ELSE Ending(e, "conjugate", Push(s, a.k, a.n, v))
    [] e.op = "isherm" -> Val(e, e.out.v = (IF SameOp(Obj(s, e.i).v, Adjoint("f", Obj(s, e.i).v)) THEN 1 ELSE 0), "is Hermitian", s)
    [] e.op = "count" -> Val(e, e.out.v = Obj(s, e.i).n, "count of modes", s)
    [] e.op = "numberop" ->
         IF ~IsOk(e) THEN Rej("number operator: failed", s)
         ELSE LET r == e.regs[Len(e.regs)] v == Stored(r.t) IN
              IF ~SameOp(v, OAdd(OSum("f", [m \in 1..e.n |-> FNum(m-1)]), OConst(RInt(-e.np)))) THEN Rej("number operator: wrong operator", s)
              ELSE Ending(e, "number operator", Push(s, "I", e.n, v))
    [] e.op = "reject" -> IF IsExc(e) THEN Ending(e, "reject", s) ELSE Rej("reject: invalid input accepted (" \o e.what \o ")", s)
    \* ---- fixed occupations ----------------------------------------------------------
    [] e.op = "freeze" ->       \* of a fermionic operator
         LET A == Stored(e.ts) occ == {e.occ[i] : i \in 1..Len(e.occ)} un == {e.un[i] : i \in 1..Len(e.un)}
             act == (0..(e.n-1)) \ (occ \cup un) IN
         IF ~IsOk(e) THEN Rej("freeze: failed", s)
         ELSE LET B == Stored(e.out.v) used == UNION {Indices(t) : t \in DOMAIN B} IN
              IF e.prune = 1 THEN
                   IF used # 0..(Cardinality(used) - 1) THEN Rej("freeze: modes not renumbered", s)
                   ELSE \* some set of that many active modes carries the operator
                        Val(e, \E U \in SUBSET act : Cardinality(U) = Cardinality(used) /\ SameFrozen(A, occ, act, Unsqueeze(B, U)), "freeze", s)
              ELSE IF ~(used \subseteq act) THEN Rej("freeze: acts on frozen modes", s)
              ELSE Val(e, SameFrozen(A, occ, act, B), "freeze", s)
    [] e.op = "active" ->       \* of an interaction operator over spin orbitals
         LET a == Obj(s, e.i) occ == 0..((2 * e.core) - 1)
             top == IF e.na # <<>> THEN Min({a.n, (2 * e.core) + (2 * e.na[1])}) ELSE a.n
             act == (2 * e.core)..(top - 1) IN
         IF ~IsOk(e) THEN Rej("active space: failed", s)
         ELSE LET r == e.regs[Len(e.regs)] v == Stored(r.t) IN
              IF r.k # "I" \/ r.n # Cardinality(act) \/ Width(v) > r.n THEN Rej("active space: number of modes", s)
              ELSE IF ~SameFrozen(a.v, occ, act, Unsqueeze(v, act)) THEN Rej("active space: another operator", s)
              ELSE Ending(e, "active space", Push(s, "I", r.n, v))
    \* ---- density matrices --------------------------------------------------------------
    [] e.op = "contract" -> Val(e, e.out.v = Contract(Obj(s, e.i).v, Obj(s, e.j).v), "expectation of tensors", s)
    [] e.op = "rdmof" ->        \* density matrices measured in a state
         IF ~IsOk(e) THEN Rej("density matrices: failed", s) ELSE Ending(e, "density matrices", Push(s, "R", e.n, RDM(State(e), e.n)))
    [] e.op = "rdmq" ->         \* expectation of a Pauli operator from the matrices of a state with fixed particle number
         LET A == Stored(e.ts) IN
         IF \E t \in DOMAIN A : \E u \in DOMAIN RevJW(Collect(<< <<t, ROne>> >>)) : Len(u) > 4
           THEN (IF IsExc(e) THEN Ending(e, "expectation of Pauli terms", s) ELSE Rej("expectation of Pauli terms: more than two-body accepted", s))
         ELSE IF ~IsOk(e) THEN Rej("expectation of Pauli terms: failed", s)
         ELSE LET d == IF Width(A) > e.n THEN Width(A) ELSE e.n IN
              IF e.out.v.val # Quad(Mat("q", A, d), State(e)) THEN Rej("expectation of Pauli terms: wrong value", s)
              ELSE Val(e, \A i \in 1..Len(e.out.v.ex) : e.out.v.ex[i].c = Quad(Mat("q", Collect(<< <<e.out.v.ex[i].f, ROne>> >>), d), State(e)), "expectation of Pauli terms", s)
    [] OTHER -> Rej("unknown event " \o e.op, s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = [heap |-> <<>>, ref |-> <<>>]
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
