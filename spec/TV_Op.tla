-------------------------------- MODULE TV_Op -------------------------------
(* Traces of programs over symbolic operators.  st: heap of objects [k, v],   *)
(* registers referring to them, images of the ladder operators.  Every event  *)
(* reports the content of all registers after it.                             *)
EXTENDS TraceLib, Ferm
VARIABLES sid, l, st
OpOf(kind, ts) == TLCEval(OFromTerms(kind, ts))
Stored(ts) == TLCEval(Collect([i \in 1..Len(ts) |-> <<ts[i].f, ts[i].c>>]))
Obj(s, r) == s.heap[s.ref[r]]
Push(s, k, v) == [s EXCEPT !.heap = Append(@, [k |-> k, v |-> v]), !.ref = Append(@, Len(s.heap) + 1)]
Put(s, r, v) == [s EXCEPT !.heap[s.ref[r]].v = v]
Res(o, k, a, b) == CASE o = "add" -> OAdd(a, b) [] o = "sub" -> OSub(a, b) [] o = "mul" -> OMul(k, a, b)
ScalRes(o, a, c) == CASE o \in {"adds", "radds"} -> OAdd(a, OConst(c)) [] o = "subs" -> OSub(a, OConst(c)) [] o = "rsubs" -> OSub(OConst(c), a)
                      [] o \in {"mul", "rmul"} -> OScale(c, a) [] o = "neg" -> ONeg(a)
SameVal(k, a, b) == IF k = "f" THEN SameOp(a, b) ELSE a = b
\* does the content of every register denote what it should?
RegBad(s, regs) ==
  IF Len(regs) # Len(s.ref) THEN "number of registers"
  ELSE IF \E i \in 1..Len(regs) : regs[i].k # Obj(s, i).k THEN "kind of operator"
  ELSE IF \E i \in 1..Len(regs) : \E j \in 1..Len(regs[i].t) : ~IsSimple(regs[i].k, regs[i].t[j].f) THEN "term not simplified"
  ELSE IF \E i \in 1..Len(regs) : \E j \in 1..Len(regs[i].t) : \E m \in 1..Len(regs[i].t[j].f) : regs[i].t[j].f[m][2] \notin ActionsOf(regs[i].k) THEN "unknown action"
  ELSE IF \E i \in 1..Len(regs) : LET v == Stored(regs[i].t) IN v # Obj(s, i).v /\ ~SameVal(regs[i].k, v, Obj(s, i).v) THEN "wrong operator"
  ELSE "ok"
\* fermionic registers keep the form observed
Adopt(s, regs) == TLCEval([s EXCEPT !.heap = [o \in 1..Len(s.heap) |->
   IF s.heap[o].k = "f" /\ \E i \in 1..Len(s.ref) : s.ref[i] = o
   THEN [k |-> "f", v |-> Stored(regs[CHOOSE i \in 1..Len(s.ref) : s.ref[i] = o].t)] ELSE s.heap[o]]])
Ending(e, what, s) == LET b == RegBad(s, e.regs) IN IF b = "ok" THEN Ok(Adopt(s, e.regs)) ELSE Rej(what \o ": " \o b, s)
\* an event with a result of its own
Val(e, cond, what, s) == IF ~IsOk(e) THEN Rej(what \o ": no value", s) ELSE IF ~cond THEN Rej(what \o ": wrong answer", s) ELSE Ending(e, what, s)
Must(e, what, s) == IF ~IsOk(e) THEN Rej(what \o ": failed", s) ELSE Ending(e, what, s)
LastReg(regs) == Stored(regs[Len(regs)].t)
Img(s) == s.img
HomS(s, A) == Hom(LAMBDA x: ImgOf(s.img, x), A)
IntOf(e) == IntOp(e.c, e.h, e.v)
AbsSum(a) == LET q == TermSeq(a) IN FoldLeft(LAMBDA acc, x: RAdd(acc, IF x[2][1] < 0 THEN RNeg(x[2]) ELSE x[2]), RZero, q)
SqSum(a) == LET q == TermSeq(a) IN FoldLeft(LAMBDA acc, x: RAdd(acc, RAbs2(x[2])), RZero, q)
ChemTerm(f) == Len(f) \in {0, 2} \/ (Len(f) = 4 /\ f[1][2] = 1 /\ f[2][2] = 0 /\ f[3][2] = 1 /\ f[4][2] = 0)
PartsOk(k, parts, whole, n) ==
  /\ Len(parts) = n
  /\ \A i, j \in 1..Len(parts) : i # j => DOMAIN parts[i] \cap DOMAIN parts[j] = {}
  /\ OSum(k, parts) = whole
Step(s, e) ==
  CASE e.op = "new" -> IF ~IsOk(e) THEN Rej("new: failed", s) ELSE Ending(e, "new (" \o e.how \o ")", Push(s, e.k, OpOf(e.k, e.ts)))
    [] e.op = "alias" -> Must(e, "alias", [s EXCEPT !.ref = Append(@, s.ref[e.i])])
    [] e.op = "copy" -> Must(e, "copy", Push(s, Obj(s, e.i).k, Obj(s, e.i).v))
    [] e.op = "bin" ->
         LET a == Obj(s, e.i) b == Obj(s, e.j) r == Res(e.o, a.k, a.v, b.v) IN
         IF ~IsOk(e) THEN Rej(e.o \o ": failed", s)
         ELSE Ending(e, e.o, IF e.inp = 1 THEN Put(s, e.i, r) ELSE Push(s, a.k, r))
    [] e.op = "scal" ->
         LET a == Obj(s, e.i) r == ScalRes(e.o, a.v, e.c) IN
         IF ~IsOk(e) THEN Rej("scalar " \o e.o \o ": failed", s)
         ELSE Ending(e, "scalar " \o e.o, IF e.inp = 1 THEN Put(s, e.i, r) ELSE Push(s, a.k, r))
    [] e.op = "div" ->      \* r * c must be the operand
         LET a == Obj(s, e.i) IN
         IF ~IsOk(e) THEN Rej("div: failed", s)
         ELSE LET r == Stored(e.regs[IF e.inp = 1 THEN e.i ELSE Len(e.regs)].t) IN
              IF OScale(e.c, r) # a.v THEN Rej("div: wrong operator", s)
              ELSE Ending(e, "div", IF e.inp = 1 THEN Put(s, e.i, r) ELSE Push(s, a.k, r))
    [] e.op = "pow" -> IF ~IsOk(e) THEN Rej("pow: failed", s) ELSE Ending(e, "pow", Push(s, Obj(s, e.i).k, OPow(Obj(s, e.i).k, Obj(s, e.i).v, e.n)))
    [] e.op = "sum" -> IF ~IsOk(e) THEN Rej("sum: failed", s)
                       ELSE Ending(e, "sum", Push(s, Obj(s, e.is[1]).k, OSum("q", [i \in 1..Len(e.is) |-> Obj(s, e.is[i]).v])))
    [] e.op = "parts" -> IF ~IsOk(e) THEN Rej("parts: failed", s)
                         ELSE Val(e, PartsOk(Obj(s, e.i).k, [i \in 1..Len(e.out.v) |-> Stored(e.out.v[i])], Obj(s, e.i).v, e.n), "parts", s)
    [] e.op = "pairs" -> IF ~IsOk(e) THEN Rej("pairs: failed", s)
                         ELSE LET D == {Stored(e.out.v[i][1]) : i \in 1..Len(e.out.v)} n == e.n IN
                              Val(e, Len(e.out.v) = n * n /\ Cardinality({<<Stored(e.out.v[i][1]), Stored(e.out.v[i][2])>> : i \in 1..Len(e.out.v)}) = n * n, "pairs of terms", s)
    [] e.op = "eq" -> Val(e, e.out.v = (IF Obj(s, e.i).k = Obj(s, e.j).k /\ Obj(s, e.i).v = Obj(s, e.j).v THEN 1 ELSE 0), "eq", s)
    [] e.op = "compress" -> IF ~IsOk(e) THEN Rej("compress: failed", s) ELSE Val(e, e.out.v = Cardinality(DOMAIN Obj(s, e.i).v), "compress", s)
    [] e.op = "str" -> IF ~IsOk(e) THEN Rej("str: failed", s) ELSE Ending(e, "print and read", Push(s, Obj(s, e.i).k, Obj(s, e.i).v))
    [] e.op = "order" -> Val(e, e.out.v = Order(Obj(s, e.i).v), "many-body order", s)
    [] e.op = "norm" -> Val(e, e.out.v = (IF e.p = 1 THEN AbsSum(Obj(s, e.i).v) ELSE SqSum(Obj(s, e.i).v)), "induced norm", s)
    [] e.op = "const" -> Val(e, e.out.v = Coef(Obj(s, e.i).v, <<>>), "constant", s)
    [] e.op = "setconst" -> Must(e, "set constant", Put(s, e.i, OAdd(OSub(Obj(s, e.i).v, OConst(Coef(Obj(s, e.i).v, <<>>))), OConst(e.c))))
    [] e.op = "reject" -> IF IsExc(e) THEN Ending(e, "reject " \o e.what, s) ELSE Rej("reject: invalid input accepted (" \o e.what \o ")", s)
    \* ---- fermions -----------------------------------------------------------------
    [] e.op = "normal" -> IF ~IsOk(e) THEN Rej("normal order: failed", s)
                          ELSE IF LastReg(e.regs) # NormalForm(Obj(s, e.i).v) THEN Rej("normal order: not the normal form", s)
                          ELSE Ending(e, "normal order", Push(s, "f", NormalForm(Obj(s, e.i).v)))
    [] e.op = "herm" -> IF ~IsOk(e) THEN Rej("conjugate: failed", s) ELSE Ending(e, "conjugate", Push(s, Obj(s, e.i).k, Adjoint(Obj(s, e.i).k, Obj(s, e.i).v)))
    [] e.op \in {"comm", "anti"} ->
         LET k == Obj(s, e.i).k a == Obj(s, e.i).v b == Obj(s, e.j).v x == OMul(k, a, b) y == OMul(k, b, a) IN
         IF ~IsOk(e) THEN Rej(e.op \o ": failed", s) ELSE Ending(e, e.op, Push(s, k, IF e.op = "comm" THEN OSub(x, y) ELSE OAdd(x, y)))
    [] e.op = "dcomm" -> IF ~IsOk(e) THEN Rej("double commutator: failed", s)
                         ELSE Ending(e, "double commutator", Push(s, "f", FComm(Obj(s, e.i).v, FComm(Obj(s, e.j).v, Obj(s, e.m).v))))
    [] e.op = "chem" -> IF ~TwoBody(Obj(s, e.i).v, 0) THEN (IF IsExc(e) THEN Ending(e, "chemist order", s) ELSE Rej("chemist order: invalid operator accepted", s))
                        ELSE IF ~IsOk(e) THEN Rej("chemist order: failed", s)
                        ELSE IF \E t \in DOMAIN LastReg(e.regs) : ~ChemTerm(t) THEN Rej("chemist order: form", s)
                        ELSE Ending(e, "chemist order", Push(s, "f", Obj(s, e.i).v))
    [] e.op = "reorder" -> IF ~IsOk(e) THEN Rej("reorder: failed", s) ELSE Ending(e, "reorder", Push(s, Obj(s, e.i).k, Relabel(Obj(s, e.i).v, e.map)))
    [] e.op = "isnormal" -> Val(e, e.out.v = (IF IsNormal(Stored(e.regs[e.i].t)) THEN 1 ELSE 0), "is normal ordered", s)
    [] e.op = "isherm" -> LET k == Obj(s, e.i).k a == Obj(s, e.i).v IN Val(e, e.out.v = (IF SameVal(k, a, Adjoint(k, a)) THEN 1 ELSE 0), "is hermitian", s)
    [] e.op = "twobody" -> Val(e, e.out.v = (IF TwoBody(Obj(s, e.i).v, e.spin) THEN 1 ELSE 0), "two-body number conserving", s)
    [] e.op = "count" -> Val(e, e.out.v = Width(Obj(s, e.i).v), "count of qubits", s)
    [] e.op = "number" -> IF ~IsOk(e) THEN Rej("number operator: failed", s)
                          ELSE Ending(e, "number operator", Push(s, "f", OScale(e.c, OSum("f", [m \in 1..Len(e.modes) |-> FNum(e.modes[m])]))))
    \* ---- transforms ------------------------------------------------------------------
    [] e.op = "ladder" ->
         IF ~IsOk(e) THEN Rej("ladder: no images", s)
         ELSE LET up == TLCEval([m \in 1..Len(e.out.v.up) |-> Stored(e.out.v.up[m])]) dn == TLCEval([m \in 1..Len(e.out.v.dn) |-> Stored(e.out.v.dn[m])]) IN
              IF Len(up) # e.n \/ Len(dn) # e.n THEN Rej("ladder: number of images", s)
              ELSE IF \E m \in 1..e.n : Width(up[m]) > e.n \/ Width(dn[m]) > e.n THEN Rej("ladder: image outside the register", s)
              ELSE IF \E m \in 1..e.n : dn[m] # Adjoint("q", up[m]) THEN Rej("ladder: adjoints", s)
              ELSE IF e.tr = "jw" /\ \E m \in 1..e.n : up[m] # JWLadder(<<m-1, 1>>) THEN Rej("ladder: not the Jordan-Wigner image", s)
              ELSE IF ~CAR(up) THEN Rej("ladder: anticommutation relations", s)
              ELSE Ending(e, "ladder", [s EXCEPT !.img = up])
    [] e.op = "map" -> IF ~IsOk(e) THEN Rej("transform: failed", s) ELSE Ending(e, "transform", Push(s, "q", HomS(s, Obj(s, e.i).v)))
    [] e.op = "mapint" -> IF ~IsOk(e) THEN Rej("transform of tensors: failed", s) ELSE Ending(e, "transform of tensors", Push(s, "q", HomS(s, IntOf(e))))
    [] e.op = "expand" -> IF ~IsOk(e) THEN Rej("expansion of tensors: failed", s) ELSE Ending(e, "expansion of tensors", Push(s, "f", IntOf(e)))
    [] e.op = "rev" -> IF ~IsOk(e) THEN Rej("reverse transform: failed", s) ELSE Ending(e, "reverse transform", Push(s, "f", RevJW(Obj(s, e.i).v)))
    [] e.op = "body" ->     \* coefficient times the term plus its conjugate (halved when it is its own)
         LET A == Collect(<< <<e.f, e.c>> >>)
             B == Adjoint("f", A)
             own == e.own = 1 IN
         IF ~IsOk(e) THEN Rej("one/two-body term: failed", s)
         ELSE Ending(e, "one/two-body term", Push(s, "q", JW(IF own THEN A ELSE OAdd(A, B))))
    [] OTHER -> Rej("unknown event " \o e.op, s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = [heap |-> <<>>, ref |-> <<>>, img |-> <<>>]
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
