------------------------------- MODULE TV_Est -------------------------------
(* Traces of estimation tasks, shot allocation, estimators, cost functions.  *)
EXTENDS TraceLib, Est, NatKey
VARIABLES sid, l, st
GateOf(o) == GWrap(MkGate(o.n, o.p), o.w)
OpsOf(s) == TLCEval([i \in 1..Len(s) |-> [g |-> GateOf(s[i]), q |-> s[i].q]])
Lins(ps) == TLCEval([i \in 1..Len(ps) |-> LinNorm(ps[i])])
SOps(s) == TLCEval([i \in 1..Len(s) |-> [g |-> GWrap(MkGate(s[i].n, Lins(s[i].p)), s[i].w), q |-> s[i].q]])
Mp(m) == TLCEval([i \in 1..Len(m) |-> <<m[i][1], LinNorm(m[i][2])>>])
OOps(r) == TLCEval([i \in 1..Len(r) |-> [g |-> [n |-> r[i].g.n, p |-> Lins(r[i].g.p), d |-> r[i].g.d, c |-> r[i].g.c], q |-> r[i].q]])
ONum(r) == NumOps([n |-> 0, ops |-> OOps(r)])
Terms(ts) == TLCEval([i \in 1..Len(ts) |-> [c |-> ts[i].c, f |-> ts[i].f]])
Task(x) == [id |-> x.id, sh |-> x.sh, t |-> Terms(x.t)]
Tasks(xs) == TLCEval([i \in 1..Len(xs) |-> Task(xs[i])])
OfId(xs, id) == SelectSeq(xs, LAMBDA x: x.id = id)
\* symbols sorted by a key: names are code point sequences, ranks integers
KeyLess(e, a, b) == CASE e.key = "str" -> CmpS(e.names[a], e.names[b]) < 0
                      [] e.key = "rev" -> CmpK(RevKey(e.names[a]), RevKey(e.names[b])) < 0
                      [] e.key = "nat" -> CmpK(Key(e.names[a]), Key(e.names[b])) < 0
                      [] e.key = "rank" -> e.ranks[a] < e.ranks[b]
SortedSyms(e, c) == SortSeq(FreeSyms(c), LAMBDA a, b: KeyLess(e, a, b))
ContextVerdict(ts, ops, n, zt, what) ==
  IF Len(zt) # Len(ts) THEN what \o ": number of terms"
  ELSE IF \E i \in 1..Len(ts) : zt[i].c # ts[i].c THEN what \o ": coefficients"
  ELSE IF \E i \in 1..Len(ts) : ~AllZ(zt[i].f) THEN what \o ": not an Ising term"
  ELSE IF \E i \in 1..Len(ops) : ~WellPlaced(ops[i], n) THEN what \o ": gate on the wrong qubits"
  ELSE IF \E i \in 1..Len(zt) : \E j \in 1..Len(zt[i].f) : zt[i].f[j][1] \notin 0..(n-1) THEN what \o ": term on the wrong qubits"
  ELSE IF \E i \in 1..Len(ts) : ~Diagonalizes(ops, n, ts[i].f, zt[i].f) THEN what \o ": wrong measured term" ELSE "ok"
\* preprocessors on a parameter vector of <<value, noisy>>
Prep(x, k) == IF k.k = "fix" THEN [i \in 1..Len(k.v) |-> <<k.v[i], 0>>] \o x ELSE [i \in 1..Len(x) |-> <<x[i][1], 1>>]
Start(x) == [i \in 1..Len(x) |-> <<x[i], 0>>]
\* a cubic with integer coefficients, evaluated at y/4, times 64
Cub(poly, y) == FoldLeft(LAMBDA acc, m: acc + (m.c * FoldLeft(LAMBDA p, i: p * y[i], 1, m.x) * Pow(4, 3 - Len(m.x))), 0, poly)
Step(s, e) ==
  CASE e.op = "reject" -> Chk(IsExc(e), "reject: invalid request accepted (" \o e.what \o ")", s)
    [] e.op = "group" ->
         IF ~IsOk(e) THEN Rej("group: no value", s)
         ELSE LET T == Tasks(e.tasks) R == Tasks(e.out.v.res)
                  ids == {T[i].id : i \in 1..Len(T)}
                  bad == {i \in 1..Len(T) : ~SameGroups([k \in 1..Len(OfId(R, T[i].id)) |-> OfId(R, T[i].id)[k].t], Grouping(e.how, T[i].t))} IN
              IF Tasks(e.out.v.inp) # T THEN Rej("group: input modified", s)
              ELSE IF \E i \in 1..Len(R) : R[i].id \notin ids THEN Rej("group: unknown circuit", s)
              ELSE IF \E i \in 1..Len(T) : \E k \in 1..Len(R) : R[k].id = T[i].id /\ R[k].sh # T[i].sh THEN Rej("group: shots", s)
              ELSE IF \E k \in 1..Len(R) : ~SharedBasis(R[k].t) THEN Rej("group: terms without a common basis", s)
              ELSE Chk(bad = {}, "group: not the partition into groups", s)
    [] e.op = "split" ->
         IF ~IsOk(e) THEN Rej("split: no value", s)
         ELSE LET T == Tasks(e.tasks) v == e.out.v n == Len(T) IN
              IF Len(v.im) # Len(v.tm) \/ Len(v.in) # Len(v.tn) THEN Rej("split: indices and tasks differ in number", s)
              ELSE IF Len(v.im) + Len(v.in) # n \/ {v.im[i] : i \in 1..Len(v.im)} \cup {v.in[i] : i \in 1..Len(v.in)} # 0..(n-1) THEN Rej("split: not a partition", s)
              ELSE IF \E i \in 1..Len(v.im) : Trivial(T[v.im[i]+1]) THEN Rej("split: trivial task to measure", s)
              ELSE IF \E i \in 1..Len(v.in) : ~Trivial(T[v.in[i]+1]) THEN Rej("split: measurable task not measured", s)
              ELSE Chk(Tasks(v.tm) = [i \in 1..Len(v.im) |-> T[v.im[i]+1]] /\ Tasks(v.tn) = [i \in 1..Len(v.in) |-> T[v.in[i]+1]],
                       "split: task and index do not belong together", s)
    [] e.op = "trivial" ->
         IF ~IsOk(e) THEN Rej("trivial: no value", s)
         ELSE Chk(e.out.v = [i \in 1..Len(e.tasks) |-> [vals |-> <<TrivialValue(e.tasks[i])>>, corr |-> << <<<<0>>>> >>, cov |-> << <<<<0>>>> >>]], "trivial: wrong values", s)
    [] e.op = "comeas" -> IF ~IsOk(e) THEN Rej("comeas: no value", s) ELSE Chk(e.out.v = (IF CoMeas(e.f, e.g) THEN 1 ELSE 0), "comeas: wrong answer", s)
    \* ---- basis change ---------------------------------------------------------
    [] e.op = "context" ->
         LET ts == Terms(e.t) IN
         IF ~SharedBasis(ts) THEN Chk(IsExc(e), "context: terms without a common basis accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("context: no value", s)
         ELSE LET r == ContextVerdict(ts, ONum(e.out.v.ops), e.n, Terms(e.out.v.t), "context") IN IF r = "ok" THEN Ok(s) ELSE Rej(r, s)
    [] e.op = "persel" ->
         LET T == e.tasks IN
         IF ~IsOk(e) THEN Rej("persel: no value", s)
         ELSE IF Len(e.out.v) # Len(T) THEN Rej("persel: number of tasks", s)
         ELSE LET V(i) == LET b == SOps(T[i].ops) o == OOps(e.out.v[i].ops) k == Len(b) IN
                          IF e.out.v[i].sh # T[i].sh THEN "persel: shots"
                          ELSE IF Len(o) < k \/ SubSeq(o, 1, k) # b THEN "persel: circuit not extended"
                          ELSE ContextVerdict(Terms(T[i].t), NumOps([n |-> 0, ops |-> SubSeq(o, k+1, Len(o))]), e.n, Terms(e.out.v[i].t), "persel")
                  vs == TLCEval([i \in 1..Len(T) |-> V(i)]) bad == {i \in 1..Len(T) : vs[i] # "ok"} IN
              IF bad = {} THEN Ok(s) ELSE Rej(vs[CHOOSE i \in bad : TRUE], s)
    \* ---- shots ------------------------------------------------------------------
    [] e.op = "uniform" ->
         IF e.N <= 0 THEN Chk(IsExc(e), "uniform: non-positive number accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("uniform: no value", s)
         ELSE Chk(Tasks(e.out.v) = [i \in 1..Len(e.tasks) |-> [Task(e.tasks[i]) EXCEPT !.sh = e.N]], "uniform: wrong tasks", s)
    [] e.op = "prop" ->
         LET fr == [i \in 1..Len(e.tasks) |-> Terms(e.tasks[i].t)] IN
         IF e.N <= 0 \/ (e.has = 1 /\ ~PriorOK(fr, e.prior)) THEN Chk(IsExc(e), "prop: invalid request accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("prop: no value", s)
         ELSE IF Tasks(e.out.v.inp) # Tasks(e.tasks) THEN Rej("prop: input modified", s)
         ELSE LET r == e.out.v.res sh == [i \in 1..Len(r) |-> r[i].sh] IN
              IF [i \in 1..Len(r) |-> [Task(r[i]) EXCEPT !.sh = 0]] # [i \in 1..Len(e.tasks) |-> [Task(e.tasks[i]) EXCEPT !.sh = 0]] THEN Rej("prop: tasks changed", s)
              ELSE IF SumSeq(sh) # e.N THEN Rej("prop: budget not conserved", s)
              ELSE Chk(LargestRemainder(Weights(fr, e.has, e.prior), e.N, sh), "prop: not proportional to the weights", s)
    [] e.op = "disc" ->
         IF ~IsOk(e) THEN Rej("disc: no value", s)
         ELSE IF SumSeq(e.out.v) # e.N THEN Rej("disc: total", s)
         ELSE Chk(LargestRemainder(e.w, e.N, e.out.v), "disc: not the largest remainders", s)
    [] e.op = "nmeas" ->
         LET fr == [i \in 1..Len(e.frames) |-> Terms(e.frames[i])] IN
         IF e.has = 1 /\ ~PriorOK(fr, e.prior) THEN Chk(IsExc(e), "nmeas: invalid prior accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("nmeas: no value", s)
         ELSE LET w == Weights(fr, e.has, e.prior) W == SumSeq(w) IN
              IF e.out.v.var # [i \in 1..Len(w) |-> w[i]*w[i]] THEN Rej("nmeas: variances", s)
              ELSE IF e.out.v.fm # [i \in 1..Len(w) |-> W*w[i]] THEN Rej("nmeas: measurements per frame", s)
              ELSE Chk(e.out.v.k2 = W*W /\ e.out.v.nt = SumSeq([i \in 1..Len(fr) |-> Len(fr[i])]), "nmeas: totals", s)
    \* ---- estimators ---------------------------------------------------------------
    [] e.op = "avg" ->
         IF ~IsOk(e) THEN Rej("avg: no value", s)
         ELSE LET T == Tasks(e.tasks) r == e.out.v.res IN
              IF Len(r) # Len(T) THEN Rej("avg: not one result per task", s)
              ELSE IF ~SameBag(e.out.v.req, [k \in 1..Len(Where(T, LAMBDA t: ~Trivial(t))) |-> LET t == T[Where(T, LAMBDA u: ~Trivial(u))[k]] IN <<t.id, t.sh>>])
                   THEN Rej("avg: requested circuits and shots", s)
              ELSE LET Res(i) == IF Trivial(T[i]) THEN [vals |-> <<TrivialValue(T[i])>>, corr |-> << <<<<0>>>> >>, cov |-> << <<<<0>>>> >>]
                                 ELSE LET q == [j \in 1..Len(T[i].t) |-> QTerm(T[i].t[j])] m == e.meas[i] K == Len(q) IN
                                      [vals |-> [j \in 1..K |-> Ev(m, q[j])],
                                       corr |-> << [j \in 1..K |-> [k \in 1..K |-> Corr(m, q[j], q[k])]] >>,
                                       cov |-> << [j \in 1..K |-> [k \in 1..K |-> CovNum(m, q[j], q[k])]] >>]
                       bad == {i \in 1..Len(T) : r[i] # Res(i)} IN
                   Chk(bad = {}, "avg: wrong values for a task", s)
    [] e.op = "exact" ->
         IF ~IsOk(e) THEN Rej("exact: no value", s)
         ELSE IF Len(e.out.v) # Len(e.tasks) THEN Rej("exact: not one result per task", s)
         ELSE Chk(\A i \in 1..Len(e.tasks) : e.out.v[i] = ExactValues(OpsOf(e.tasks[i].ops), e.tasks[i].n, Terms(e.tasks[i].t)), "exact: wrong values for a task", s)
    [] e.op = "evalc" ->
         IF ~IsOk(e) THEN Rej("evalc: no value", s)
         ELSE IF Len(e.out.v) # Len(e.tasks) THEN Rej("evalc: number of tasks", s)
         ELSE LET M(i) == Mp(IF Len(e.maps) = 1 THEN e.maps[1] ELSE e.maps[i]) IN
              Chk(\A i \in 1..Len(e.tasks) : LET o == e.out.v[i] t == e.tasks[i] IN
                     /\ o.sh = t.sh /\ Terms(o.t) = Terms(t.t) /\ o.c.n = t.n
                     /\ OOps(o.c.ops) = BindC([n |-> t.n, ops |-> SOps(t.ops)], M(i)).ops, "evalc: not the bound circuits", s)
    \* ---- cost functions --------------------------------------------------------------
    [] e.op = "cost" ->
         IF ~IsOk(e) THEN Rej("cost: no value", s)
         ELSE LET c == [n |-> e.n, ops |-> SOps(e.ops)]
                  sy == SortedSyms(e, c)
                  full(x) == e.fixed \o x
                  val(x) == LET y == full(x) m == [i \in 1..Len(sy) |-> <<sy[i], LinConst(y[i])>>] IN
                            RSumSeq(ExactValues(NumOps(BindC(c, m)), e.n, Terms(e.t))) IN
              IF e.out.v.prec # 0 THEN Rej("cost: precision without covariances", s)
              ELSE IF e.out.v.input # 1 THEN Rej("cost: parameters modified", s)
              ELSE IF e.out.v.grad # 1 THEN Rej("cost: gradient", s)
              ELSE Chk(e.out.v.vals = [k \in 1..Len(e.pts) |-> val(e.pts[k])], "cost: wrong value", s)
    [] e.op = "prep" ->
         IF ~IsOk(e) THEN Rej("prep: no value", s)
         ELSE IF e.out.v.vals # [i \in 1..Len(e.calls) |-> FoldLeft(Prep, Start(e.calls[i]), e.chain)] THEN Rej("prep: fixed or noisy parameters", s)
         ELSE IF e.out.v.same # 1 THEN Rej("prep: same seed, different noise", s)
         ELSE IF e.out.v.size # 1 THEN Rej("prep: noise of the wrong size", s)
         ELSE Chk(e.out.v.input = 1, "prep: input modified", s)
    [] e.op = "fd" ->      \* polynomial at x/4, step h/4: gradient * 2h/4 * 64
         IF ~IsOk(e) THEN Rej("fd: no value", s)
         ELSE LET At(i, d) == Cub(e.poly, [e.x EXCEPT ![i] = @ + d]) IN
              IF e.h = 0 THEN     \* default step: the derivative, times 192
                 Chk(e.out.v.g = [i \in 1..Len(e.x) |-> (8 * (At(i, 1) - At(i, -1))) - (At(i, 2) - At(i, -2))], "fd: not the derivative", s)
              ELSE IF e.out.v.input # 1 THEN Rej("fd: point modified", s)
              ELSE Chk(e.out.v.g = [i \in 1..Len(e.x) |-> At(i, e.h) - At(i, -e.h)], "fd: not the symmetric difference quotient", s)
    [] e.op = "sumev" ->
         IF ~IsOk(e) THEN Rej("sumev: no value", s)
         ELSE IF e.out.v.value # SumSeq(e.vals) THEN Rej("sumev: value", s)
         ELSE Chk(e.out.v.var = (IF e.cov = <<>> THEN <<>> ELSE <<SumSeq([i \in 1..Len(e.cov) |-> SumSeq([j \in 1..Len(e.cov[i]) |-> SumSeq(e.cov[i][j])])])>>), "sumev: precision", s)
    [] OTHER -> Rej("unknown event", s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
