------------------------------- MODULE TV_Meas ------------------------------
(* Traces of measurement sets, estimators, distributions and distances.      *)
EXTENDS TraceLib, Meas
VARIABLES sid, l, st
Op(t) == [f |-> t.f, c |-> t.c]
DistinctKeys(s) == \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
\* recorded key of a distribution: form "t" tuple, "s" digits, "c" comma separated, "x" not a key at all
KeyBad(k) == k.form = "x"
NewLegal(e) == /\ Len(e.keys) > 0 /\ ~\E i \in 1..Len(e.keys) : KeyBad(e.keys[i])
               /\ KeysOK([i \in 1..Len(e.keys) |-> e.keys[i].k]) /\ WeightsOK(e.w)
               /\ (e.norm = 1 => SumSeq(e.w) > 0)
DistIs(d, ks, ws) == DistinctKeys(d) /\ Len(d) = Len(ks)
                     /\ \A i \in 1..Len(ks) : \E j \in 1..Len(d) : d[j][1] = ks[i] /\ d[j][2] = ws[i]
Step(s, e) ==
  CASE e.op = "reject" -> Chk(IsExc(e), "reject: invalid request accepted (" \o e.what \o ")", s)
    \* ---- measurement sets: the state is the list of outcomes -------------------
    [] e.op = "m_new" -> IF ~IsOk(e) THEN Rej("m_new: no value", s) ELSE Chk(e.out.v = e.l, "m_new: wrong outcomes", e.l)
    [] e.op = "m_fromc" -> IF ~IsOk(e) THEN Rej("m_fromc: no value", s)
                           ELSE LET m == AddCounts(<<>>, e.c) IN Chk(e.out.v = m, "m_fromc: wrong outcomes", m)
    [] e.op = "m_add" -> IF ~IsOk(e) THEN Rej("m_add: no value", s)
                         ELSE LET m == AddCounts(s, e.c) IN Chk(e.out.v = m, "m_add: wrong outcomes", m)
    [] e.op = "m_counts" -> IF ~IsOk(e) THEN Rej("m_counts: no value", s)
                            ELSE Chk(SamePairs(e.out.v.c, Counts(s)) /\ e.out.v.after = s, "m_counts: wrong counts", s)
    [] e.op = "m_dist" -> IF s = <<>> THEN Chk(~IsOk(e), "m_dist: distribution of nothing", s)
                          ELSE IF ~IsOk(e) THEN Rej("m_dist: no value", s)
                          ELSE Chk(SamePairs(e.out.v, Counts(s)), "m_dist: not counts over total", s)
    [] e.op = "m_io" -> IF ~IsOk(e) THEN Rej("m_io: no value", s)
                        ELSE IF e.out.v.l # s THEN Rej("m_io: wrong outcomes", s)
                        ELSE Chk(SamePairs(e.out.v.c, Counts(s)), "m_io: wrong counts in the file", s)
    [] e.op = "m_rebuild" -> IF ~IsOk(e) THEN Rej("m_rebuild: no value", s)
                             ELSE Chk(SameBag(e.out.v, s), "m_rebuild: counts do not give back the outcomes", s)
    [] e.op = "m_labels" -> IF ~IsOk(e) THEN Rej("m_labels: no value", s)
                            ELSE Chk(e.out.v.s = e.l /\ e.out.v.t = e.l /\ e.out.v.i = [i \in 1..Len(e.l) |-> IntOf(e.l[i])], "m_labels: bit order", s)
    \* ---- estimators ----------------------------------------------------------
    [] e.op = "est" ->
         IF ~IsOk(e) THEN Rej("est: no value", s)
         ELSE LET T == e.t K == Len(T) IN
              IF e.out.v.ev # [i \in 1..K |-> Ev(e.m, T[i])] THEN Rej("est: expectation values", s)
              ELSE IF e.out.v.corr # [i \in 1..K |-> [j \in 1..K |-> Corr(e.m, T[i], T[j])]] THEN Rej("est: correlations", s)
              ELSE Chk(e.out.v.cov = [i \in 1..K |-> [j \in 1..K |-> CovNum(e.m, T[i], T[j])]], "est: estimator covariances", s)
    [] e.op = "par" ->
         IF ~IsOk(e) THEN Rej("par: no value", s)
         ELSE LET T == e.t K == Len(T) N == Len(e.m)
                  P(f) == <<Even(e.m, f), N - Even(e.m, f)>> IN
              IF e.out.v.vals # [i \in 1..K |-> P(T[i].f)] THEN Rej("par: parity counts", s)
              ELSE Chk(e.out.v.corr = [i \in 1..K |-> [j \in 1..K |-> P(QSymDiff(T[i].f, T[j].f))]], "par: pair counts", s)
    [] e.op = "fromp" ->
         IF \E i \in 1..Len(e.p) : e.p[i][1] + e.p[i][2] = 0 THEN Chk(IsExc(e), "fromp: no samples accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("fromp: no value", s)
         ELSE IF e.out.v.vals # [i \in 1..Len(e.p) |-> e.p[i][1] - e.p[i][2]] THEN Rej("fromp: values", s)
         ELSE Chk(e.out.v.prec = [i \in 1..Len(e.p) |-> PrecNum(e.p[i][1], e.p[i][2])], "fromp: precision", s)
    [] e.op = "freq" ->
         IF ~IsOk(e) THEN Rej("freq: no value", s)
         ELSE LET m == AddCounts(<<>>, e.c) IN
              IF e.out.v.ev # SumSgn(m, e.f) THEN Rej("freq: expectation value", s)
              ELSE Chk(e.out.v.even = [i \in 1..Len(e.c) |-> IF Sgn(e.c[i][1], e.f) = 1 THEN 1 ELSE 0], "freq: parity of an outcome", s)
    [] e.op = "cat" ->
         IF ~IsOk(e) THEN Rej("cat: no value", s)
         ELSE LET Join(fld) == FoldLeft(LAMBDA acc, x: acc \o x[fld], <<>>, e.xs) IN
              Chk(e.out.v.vals = Join("vals") /\ e.out.v.corr = Join("corr") /\ e.out.v.cov = Join("cov"), "cat: values or frames lost or reordered", s)
    [] e.op = "eveq" ->      \* equal exactly when values, correlations and covariances are; never equal to something else
         IF ~IsOk(e) THEN Rej("eveq: no value", s)
         ELSE LET b == IF e.a = e.b THEN 1 ELSE 0 IN Chk(e.out.v = <<b, b, 1 - b, 0>>, "eveq: equality of expectation values", s)
    [] e.op = "real" ->
         IF ~IsOk(e) THEN Rej("real: no value", s)
         ELSE Chk(e.out.v = [i \in 1..Len(e.xs) |-> e.xs[i][1]], "real: wrong values", s)
    \* ---- distributions -----------------------------------------------------------
    [] e.op = "d_new" ->
         IF ~NewLegal(e) THEN Chk(IsExc(e), "d_new: invalid distribution accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("d_new: valid distribution rejected", s)
         ELSE LET ks == [i \in 1..Len(e.keys) |-> e.keys[i].k] IN
              IF ~DistIs(e.out.v.d, ks, e.w) THEN Rej("d_new: wrong probabilities", s)
              ELSE IF e.out.v.sub # Len(ks[1]) THEN Rej("d_new: number of subsystems", s)
              ELSE Chk(e.out.v.input = e.w, "d_new: input mapping changed", s)
    [] e.op = "d_io" ->
         IF ~IsOk(e) THEN Rej("d_io: no value", s)
         ELSE IF Len(e.out.v) # Len(e.ds) THEN Rej("d_io: number of distributions", s)
         ELSE Chk(\A i \in 1..Len(e.ds) : DistIs(e.out.v[i], [j \in 1..Len(e.ds[i]) |-> e.ds[i][j][1]], [j \in 1..Len(e.ds[i]) |-> e.ds[i][j][2]]),
                  "d_io: read back differently", s)
    [] e.op = "d_vec" ->
         IF ~IsOk(e) THEN Rej("d_vec: no value", s)
         ELSE LET n == Log2Of(Len(e.w)) IN
              Chk(DistIs(e.out.v, [i \in 1..Len(e.w) |-> BitsBE(i-1, n)], e.w), "d_vec: entry and outcome do not match", s)
    \* ---- distances ---------------------------------------------------------------
    [] e.op = "nll" -> IF ~IsOk(e) THEN Rej("nll: no value", s) ELSE Chk(e.out.v = NLL(e.t, e.m, e.W, e.e), "nll: wrong value", s)
    [] e.op = "jsd" -> IF ~IsOk(e) THEN Rej("jsd: no value", s) ELSE Chk(e.out.v = JSD2(e.t, e.m, e.W, e.e), "jsd: wrong value", s)
    [] e.op = "mmd" -> IF ~IsOk(e) THEN Rej("mmd: no value", s) ELSE Chk(e.out.v = Mmd(e.t, e.m, e.as, e.S), "mmd: wrong value", s)
    \* default parameters: the likelihood is a log 2 + b log 10^9 (over W); two-point kernel is a + b exp(-d^2/2)
    [] e.op = "nll_def" ->
         IF ~IsOk(e) THEN Rej("nll_def: no value", s)
         ELSE LET K == KeySet(e.t) Z == {k \in K : WAt(e.m, k) = 0} IN
              Chk(e.out.v = <<SumF(LAMBDA k: WAt(e.t, k) * NegLogClip(WAt(e.m, k), e.W, 29), K \ Z), SumF(LAMBDA k: WAt(e.t, k), Z)>>,
                  "nll_def: wrong value with the default epsilon", s)
    [] e.op = "mmd_def" ->     \* distributions differ by x/W on exactly two outcomes
         IF ~IsOk(e) THEN Rej("mmd_def: no value", s)
         ELSE Chk(e.out.v = <<2 * e.x * e.x, -2 * e.x * e.x>>, "mmd_def: wrong value with the default bandwidth", s)
    [] e.op = "eval" ->        \* which arguments are accepted, and what is handed on
         LET legal == e.types = 1 /\ e.na = e.nb /\ e.norma = e.normb IN
         IF ~legal THEN Chk(IsExc(e), "eval: inconsistent arguments accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("eval: no value", s)
         ELSE Chk(e.out.v = 1, "eval: not the distance of its arguments", s)
    \* ---- representation ------------------------------------------------------------
    [] e.op = "repr" ->
         IF ~IsOk(e) THEN Rej("repr: no value", s)
         ELSE IF e.out.v.dist # e.w THEN Rej("repr: distribution modified", s)
         ELSE IF e.out.v.other # 0 THEN Rej("repr: outcome outside the distribution", s)
         ELSE IF SumSeq(e.out.v.c) # e.n THEN Rej("repr: number of outcomes", s)
         ELSE Chk(RepOK(e.w, e.n, e.W, e.out.v.c), "repr: counts do not follow the shares", s)
    [] e.op = "draw" ->
         IF ~IsOk(e) THEN Rej("draw: no value", s)
         ELSE Chk(SumSeq(e.out.v.c) = e.n /\ e.out.v.other = 0 /\ \A i \in 1..Len(e.w) : e.out.v.c[i] >= 0 /\ (e.w[i] = 0 => e.out.v.c[i] = 0),
                  "draw: wrong number or impossible outcome", s)
    [] OTHER -> Rej("unknown event", s)

Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
