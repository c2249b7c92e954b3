------------------------------- MODULE TV_Store ------------------------------
(* Traces of programs over saved objects, and of the general utilities.        *)
(* st: regs (sequence of [k, v]), fs (Store), memo (results by seed).           *)
EXTENDS TraceLib, OpAlg, Util, Graphs, Store
VARIABLES sid, l, st
IsOp(k) == k \in {"q", "i", "f"}
\* the value denoted: operators are functions from terms to coefficients, anything else is taken as it is
Val(k, v) == IF IsOp(k) THEN TLCEval([t \in {v[j].f : j \in 1..Len(v)} |-> LET i == CHOOSE j \in 1..Len(v) : v[j].f = t IN v[i].x]) ELSE v
Distinct(k, v) == ~IsOp(k) \/ (\A i, j \in 1..Len(v) : i # j => v[i].f # v[j].f)
Obj(k, v) == [k |-> k, v |-> Val(k, v), raw |-> v]
SameObj(a, b) == a.k = b.k /\ a.v = b.v
Push(s, o) == [s EXCEPT !.regs = Append(@, o)]
\* an event whose outcome is an object equal to o, which becomes a new register
Gives(e, o, what, s) ==
  IF ~IsOk(e) THEN Rej(what \o ": no value", s)
  ELSE IF ~Distinct(e.out.v.k, e.out.v.v) THEN Rej(what \o ": repeated term", s)
  ELSE LET n == Obj(e.out.v.k, e.out.v.v) IN Chk(n.k = o.k /\ n.v = o.v, what \o ": not equal", Push(s, n))
PauliStr(f) == FoldLeft(LAMBDA acc, x: acc \o x[2] \o ToString(x[1]), "", f)
GraphOk(e, s) ==
  LET g == e.g IN
  IF ~Valid(g) THEN Chk(IsExc(e), "graph: impossible specification accepted", s)
  ELSE IF ~IsOk(e) THEN Rej("graph: no value", s)
  ELSE LET v == e.out.v IN
       IF ~SimpleGraph(v.n, v.e) THEN Rej("graph: not a simple graph", s)
       ELSE IF {v.n[i] : i \in 1..Len(v.n)} # Nodes(g) THEN Rej("graph: nodes", s)
       ELSE IF ~Shape(g, v.e) THEN Rej("graph: edges", s)
       ELSE IF ~Weights(e.w, v.e) THEN Rej("graph: weights", s)
       ELSE LET key == <<g, e.w, e.seed>> IN
            IF e.seed = <<>> THEN Ok(s)
            ELSE IF \E m \in s.memo : m[1] = key THEN Chk(\E m \in s.memo : m[1] = key /\ m[2] = v, "graph: differs under the same seed", s)
            ELSE Ok([s EXCEPT !.memo = @ \cup {<<key, v>>}])
Step(s, e) ==
  CASE e.op = "new" -> Gives(e, Obj(e.k, e.v), "new", s)
    [] e.op = "save" ->
         LET o == s.regs[e.i] IN
         IF Refuses(s.fs, e.fmt, e.name, o.k, e.ow) THEN Chk(IsExc(e), "save: not refused", s)
         ELSE Chk(IsOk(e), "save: failed", [s EXCEPT !.fs = Saved(@, e.fmt, e.name, IF e.fmt = "qubit" THEN [o EXCEPT !.k = "q"] ELSE o)])
    [] e.op = "load" ->
         IF ~CanLoad(s.fs, e.name) THEN Chk(IsExc(e), "load: of a file that is not there", s)
         ELSE Gives(e, Loaded(s.fs, e.name), "load", s)
    [] e.op = "dir" -> Chk(IsOk(e) /\ {e.out.v[i] : i \in 1..Len(e.out.v)} = DOMAIN s.fs, "files in the directory", s)
    [] e.op = "schema" -> Chk(IsOk(e) /\ e.out.v = Schema(s.fs[e.name].fmt), "schema", s)
    [] e.op = "dschema" -> Chk(IsOk(e) /\ e.out.v = Schema(e.fmt), "schema", s)
    [] e.op = "round" -> Gives(e, s.regs[e.i], "round trip", s)
    [] e.op = "check" -> Chk(IsOk(e) /\ Len(e.out.v) = Len(s.regs) /\ \A i \in 1..Len(s.regs) : SameObj(Obj(e.out.v[i].k, e.out.v[i].v), s.regs[i]), "object changed", s)
    [] e.op = "convert" ->
         LET o == s.regs[e.i] IN
         IF \A t \in DOMAIN o.v : t = <<>> \/ ((o.k = "f") = (e.k = "f") /\ \A i \in 1..Len(t) : t[i][2] \in ActionsOf(e.k))
         THEN Gives(e, [k |-> e.k, v |-> o.v], "convert", s)
         ELSE Chk(IsExc(e), "convert: not rejected", s)
    [] e.op = "strings" ->
         Chk(IsOk(e) /\ e.out.v = [j \in 1..Len(s.regs[e.i].raw) |-> PauliStr(s.regs[e.i].raw[j].f)], "Pauli strings", s)
    \* ---- value estimates
    [] e.op = "value" ->
         IF ~IsOk(e) THEN Rej("value estimate: no value", s)
         ELSE LET v == e.out.v IN
              IF v.a # e.a \/ v.p # e.p THEN Rej("value estimate: value or precision", s)
              ELSE IF v.sum # e.a + e.b \/ v.diff # e.a - e.b \/ v.prod # e.a * e.b \/ v.neg # -e.a \/ v.abs # (IF e.a < 0 THEN -e.a ELSE e.a) THEN Rej("value estimate: arithmetic", s)
              ELSE IF v.lt # (IF e.a < e.b THEN 1 ELSE 0) \/ v.le # (IF e.a <= e.b THEN 1 ELSE 0) THEN Rej("value estimate: order", s)
              ELSE IF v.eq # (IF VEq(e.a, e.p, e.b, e.q) THEN 1 ELSE 0) \/ v.ne # 1 - v.eq THEN Rej("value estimate: equality", s)
              ELSE IF v.eqf # (IF e.a = e.b /\ e.p = <<>> THEN 1 ELSE 0) THEN Rej("value estimate: equality with a number", s)
              ELSE Chk(v.str = 1, "value estimate: text", s)
    \* ---- bits
    [] e.op = "dec2bin" -> IF ~FitsBits(e.n, e.len) THEN Chk(IsExc(e), "dec2bin: not rejected", s) ELSE Chk(IsOk(e) /\ e.out.v = BitsOf(e.n, e.len), "dec2bin", s)
    [] e.op = "bin2dec" -> Chk(IsOk(e) /\ e.out.v = FromBits(e.b), "bin2dec", s)
    [] e.op = "tuples" -> Chk(IsOk(e) /\ e.out.v = e.ts, "bit strings to tuples", s)      \* the driver writes the strings
    [] e.op = "bitstrings" -> Chk(IsOk(e) /\ e.out.v = [i \in 1..Len(e.ts) |-> FoldLeft(LAMBDA acc, x: acc \o ToString(x), "", e.ts[i])], "tuples to bit strings", s)
    [] e.op = "ordered" -> Chk(IsOk(e) /\ e.out.v = [i \in 1..(2^e.n) |-> FoldLeft(LAMBDA acc, x: acc \o ToString(x), "", BitsOf(i-1, e.n))], "ordered list", s)
    \* ---- matrices
    [] e.op = "is_identity" -> Chk(IsOk(e) /\ e.out.v = (IF IsIdentityM(e.A) THEN 1 ELSE 0), "is_identity", s)
    [] e.op = "is_unitary" -> Chk(IsOk(e) /\ e.out.v = (IF IsUnitaryM(e.A) THEN 1 ELSE 0), "is_unitary", s)
    [] e.op = "notsquare" -> Chk(IsExc(e), "matrix that is not square accepted", s)
    [] e.op = "compare" ->
         IF ~IsUnitaryM(e.A) \/ ~IsUnitaryM(e.B) THEN Chk(IsExc(e), "compare: matrix that is not unitary accepted", s)
         ELSE Chk(IsOk(e) /\ e.out.v = (IF SameUpToPhase(e.A, e.B) THEN 1 ELSE 0), "compare_unitary", s)
    [] e.op = "apportion" -> Chk(IsOk(e) /\ ApportionOk(e.v, e.total, e.out.v), "apportionment", s)
    [] e.op = "sample" ->       \* outcomes are numbered; weights are integers; out: <<outcome, count>>
         Chk(IsOk(e) /\ Sum([j \in 1..Len(e.out.v) |-> e.out.v[j][2]]) = e.n
             /\ \A i \in 1..Len(e.out.v) : e.out.v[i][1] \in 1..Len(e.w) /\ e.w[e.out.v[i][1]] > 0 /\ e.out.v[i][2] > 0
             /\ Cardinality({e.out.v[h][1] : h \in 1..Len(e.out.v)}) = Len(e.out.v), "samples", s)
    [] e.op = "symmap" -> IF e.ns # Len(e.v) THEN Chk(IsExc(e), "symbols map: lengths differ", s) ELSE Chk(IsOk(e) /\ e.out.v = e.v, "symbols map", s)
    [] e.op = "create" ->       \* objects from specifications
         IF e.clash = 1 THEN Chk(IsExc(e), "create: parameter given twice", s)
         ELSE Chk(IsOk(e) /\ e.out.v.args = e.args /\ e.out.v.specs = 1, "create: arguments or specification changed", s)
    \* ---- graphs
    [] e.op = "graph" -> GraphOk(e, s)
    [] e.op = "nodedict" -> Chk(IsOk(e) /\ {e.out.v[i] : i \in 1..Len(e.out.v)} = NodeDict(e.n), "node dictionary", s)
    [] e.op = "cmp" -> Chk(IsOk(e) /\ e.out.v = (IF SameGraph(e.n1, e.e1, e.n2, e.e2) THEN 1 ELSE 0), "graph comparison", s)
    [] OTHER -> Rej("unknown event", s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = [regs |-> <<>>, fs |-> NoFiles, memo |-> {}]
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
