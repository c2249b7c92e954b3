------------------------------- MODULE TV_Sim -------------------------------
(* Traces of evolution circuits, simulators, backends, trackers and          *)
(* wavefunction objects.                                                     *)
EXTENDS TraceLib, Pauli, Wave, Backend
VARIABLES sid, l, st
IsMpo(o) == o.n = "mpo"
ApplyAny(o, n, v) == IF IsMpo(o) THEN TLCEval([i \in 1..Len(v) |-> RMul(RPhase(o.p[i][1], o.p[i][2]), v[i])])
                     ELSE ApplyOp([g |-> GWrap(MkGate(o.n, o.p), o.w), q |-> o.q], n, v)
RunAny(ops, n, v) == FoldLeft(LAMBDA acc, o: ApplyAny(o, n, acc), v, ops)
\* outcome (b0,b1,..): qubit i is bit i
OutIdx(bits) == FoldLeft(LAMBDA acc, b: 2*acc + b, 0, bits)
Prob(v, bits) == RAbs2(v[OutIdx(bits) + 1])
BitsOK(bits, n) == Len(bits) = n /\ \A i \in 1..n : bits[i] \in {0, 1}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
SupportOK(cnt, v, n) == /\ Distinct(cnt)
                        /\ \A i \in 1..Len(cnt) : BitsOK(cnt[i][1], n) /\ cnt[i][2] > 0 /\ Prob(v, cnt[i][1]) # RZero
Total(cnt) == FoldLeft(LAMBDA acc, x: acc + x[2], 0, cnt)
SegsOf(c, nat) == SegCount([i \in 1..Len(c.ops) |-> IF nat = "all" THEN 1 ELSE IF IsMpo(c.ops[i]) THEN 0 ELSE 1])
\* what a backend of the session returns for circuit c and k shots (circuits of these sessions are deterministic)
ResOK(cnt, c, k) == LET v == RunAny(c.ops, c.n, Basis(c.n, 0)) IN Total(cnt) = k /\ SupportOK(cnt, v, c.n)
NoSt(x) == x
WEnt(e) == IF e.t = "n" THEN EN(e.v) ELSE ES(e.i)
WVec(s) == TLCEval([i \in 1..Len(s) |-> WEnt(s[i])])
\* symbolic with total numeric probability exactly one: rounding may go either way
Border(w) == IsPow2(Len(w)) /\ Symbolic(w) /\ NumNorm(w) = ROne
Attempt(s, e, w2, forced, what) ==
  LET now == WVec(e.out.v.w) IN
  IF Border(w2) THEN Chk((e.out.v.exc = 1 /\ now = s) \/ (e.out.v.exc = 0 /\ now = w2), what \o ": neither done nor undone", now)
  ELSE IF Legal(w2) /\ (Symbolic(s) \/ ~Symbolic(w2)) THEN
       (IF e.out.v.exc = 1 /\ ~forced THEN Chk(now = s, what \o ": rejected but the object changed", now)
        ELSE IF e.out.v.exc = 1 THEN Rej(what \o ": legal change rejected", s)
        ELSE Chk(now = w2, what \o ": wrong amplitudes", now))
  ELSE IF e.out.v.exc = 0 THEN Rej(what \o ": illegal change accepted", s)
  ELSE Chk(now = s, what \o ": rejected but the object changed", now)

Step(s, e) ==
  CASE e.op = "reject" -> Chk(IsExc(e), "reject: invalid request accepted (" \o e.what \o ")", s)
    \* ---- evolution ---------------------------------------------------------
    [] e.op = "evolve" ->
         IF ~IsOk(e) THEN Rej("evolve: no value", s)
         ELSE LET M == TrotterMat(e.H, e.A, e.steps, e.n) IN
              IF Len(e.out.v) # Len(M) THEN Rej("evolve: number of qubits", s)
              ELSE Chk(EqUpToPhase(M, e.out.v), "evolve: not the product formula", s)
    [] e.op = "deriv" ->
         IF ~IsOk(e) THEN Rej("deriv: no value", s)
         ELSE LET Ex(w) == Inner(w, OpApply(e.obs, e.n, w))
                  got == FoldLeft(LAMBDA acc, x: RAdd(acc, RMul(x.fac, Ex(x.st))), RZero, e.out.v)
              IN Chk(got = TrotterDeriv(e.H, e.A, e.steps, e.n, e.vec, e.obs), "deriv: not the time derivative", s)
    \* ---- simulation --------------------------------------------------------
    [] e.op = "wf" ->
         IF ~IsOk(e) THEN Rej("wf: no value", s)
         ELSE Chk(e.out.v = RunAny(e.ops, e.n, e.vec), "wf: wrong state", s)
    [] e.op = "exact" ->
         IF ~IsOk(e) THEN Rej("exact: no value", s)
         ELSE LET v == RunAny(e.ops, e.n, Basis(e.n, 0)) IN
              IF Len(e.out.v) # Len(e.terms) THEN Rej("exact: not one value per term", s)
              ELSE Chk(\A i \in 1..Len(e.terms) : e.out.v[i] = TermValue(e.terms[i], e.n, v), "exact: wrong value", s)
    [] e.op = "dist" ->
         IF ~IsOk(e) THEN Rej("dist: no value", s)
         ELSE LET v == RunAny(e.ops, e.n, Basis(e.n, 0)) d == e.out.v IN
              IF ~Distinct(d) \/ \E i \in 1..Len(d) : ~BitsOK(d[i][1], e.n) THEN Rej("dist: wrong outcomes", s)
              ELSE IF \E i \in 1..Len(d) : d[i][2] # Prob(v, d[i][1]) THEN Rej("dist: wrong probability", s)
              ELSE Chk(FoldLeft(LAMBDA acc, x: RAdd(acc, x[2]), RZero, d) = ROne, "dist: does not sum to one", s)
    [] e.op = "sample" ->
         IF ~IsOk(e) THEN Rej("sample: no value", s)
         ELSE LET v == RunAny(e.ops, e.n, Basis(e.n, 0)) IN
              IF Total(e.out.v.cnt) # e.shots THEN Rej("sample: number of outcomes", s)
              ELSE IF ~SupportOK(e.out.v.cnt, v, e.n) THEN Rej("sample: impossible outcome", s)
              ELSE Chk(e.out.v.again = 1, "sample: not reproducible under its seed", s)
    \* ---- backends: state [nc, nj] ---------------------------------------------
    [] e.op = "b_new" -> IF ~IsOk(e) THEN Rej("b_new: no value", s)
         ELSE Chk(e.out.v = [nc |-> 0, nj |-> 0], "b_new: counters do not start at zero", [nc |-> 0, nj |-> 0])
    [] e.op = "b_run" ->
         IF ~IsOk(e) THEN Rej("b_run: no value", s)
         ELSE LET c2 == OneRun(e.kind, s, SegsOf(e.c, e.nat)) IN
              IF ~ResOK(e.out.v.res, e.c, e.shots) THEN Rej("b_run: wrong outcomes", s)
              ELSE Chk(e.out.v.cnt = c2, "b_run: counters", c2)
    [] e.op = "b_bad" ->
         IF ~IsOk(e) THEN Rej("b_bad: no value", s)
         ELSE IF e.out.v.exc # 1 THEN Rej("b_bad: accepted", s)
         ELSE IF e.kind # "sim" /\ e.out.v.cnt # s THEN Rej("b_bad: a rejected run was counted", s)
         ELSE Ok(e.out.v.cnt)
    [] e.op = "b_set" ->
         IF ~IsOk(e) THEN Rej("b_set: no value", s)
         ELSE LET c2 == SetRun(e.kind, e.b, s, [i \in 1..Len(e.cs) |-> SegsOf(e.cs[i], e.nat)]) IN
              IF Len(e.out.v.res) # Len(e.cs) THEN Rej("b_set: not one result per circuit", s)
              ELSE IF \E i \in 1..Len(e.cs) : ~ResOK(e.out.v.res[i], e.cs[i], e.shots[i]) THEN Rej("b_set: wrong outcomes", s)
              ELSE Chk(e.out.v.cnt = c2, "b_set: counters", c2)
    [] e.op = "b_dist" ->     \* shots = 0: exact distribution (simulators)
         IF ~IsOk(e) THEN Rej("b_dist: no value", s)
         ELSE LET c2 == OneRun(e.kind, s, SegsOf(e.c, e.nat))
                  v == RunAny(e.c.ops, e.c.n, Basis(e.c.n, 0)) d == e.out.v.res IN
              IF ~Distinct(d) \/ (\E i \in 1..Len(d) : ~BitsOK(d[i][1], e.c.n)) THEN Rej("b_dist: wrong outcomes", s)
              ELSE IF \E i \in 1..Len(d) : d[i][2] # 0 /\ Prob(v, d[i][1]) = RZero THEN Rej("b_dist: impossible outcome", s)
              ELSE IF Total(d) # e.den THEN Rej("b_dist: does not sum to one", s)
              ELSE Chk(e.out.v.cnt = c2, "b_dist: counters", c2)
    [] e.op = "b_wf" ->
         IF ~IsOk(e) THEN Rej("b_wf: no value", s)
         ELSE LET c2 == OneRun(e.kind, s, SegsOf(e.c, e.nat)) IN Chk(e.out.v.cnt = c2, "b_wf: counters", c2)
    \* ---- tracking -----------------------------------------------------------------
    [] e.op \in {"t_run", "t_set", "t_dist"} ->
         IF ~IsOk(e) THEN Rej(e.op \o ": no value", s)
         ELSE LET r == e.out.v IN
         IF r.res # r.twin THEN Rej(e.op \o ": result differs from the wrapped backend's", s)
         ELSE IF Len(r.rec) # Len(e.cs) THEN Rej(e.op \o ": not one record per circuit", s)
         ELSE IF \E i \in 1..Len(e.cs) : r.rec[i].same # 1 THEN Rej(e.op \o ": recorded circuit or device", s)
         ELSE IF \E i \in 1..Len(e.cs) : r.rec[i].gates # Len(e.cs[i].ops) THEN Rej(e.op \o ": recorded number of gates", s)
         ELSE IF \E i \in 1..Len(e.cs) : r.rec[i].shots # e.shots[i] THEN Rej(e.op \o ": recorded number of shots", s)
         ELSE IF e.op = "t_dist" THEN Chk(r.rec[1].dist = 1, "t_dist: recorded distribution", s)
         ELSE IF \E i \in 1..Len(e.cs) : {r.rec[i].counts[j] : j \in 1..Len(r.rec[i].counts)} # {r.res[i].counts[j] : j \in 1..Len(r.res[i].counts)}
              THEN Rej(e.op \o ": recorded counts", s)
         ELSE IF \E i \in 1..Len(e.cs) : r.rec[i].hasbits # e.rb THEN Rej(e.op \o ": bitstrings recorded without request or not recorded", s)
         ELSE IF e.rb = 1 /\ \E i \in 1..Len(e.cs) : r.rec[i].bits # r.res[i].bits THEN Rej(e.op \o ": recorded bitstrings", s)
         ELSE Ok(s)
    \* ---- wavefunction objects: state = entries ---------------------------------------
    [] e.op = "w_new" ->
         LET w == WVec(e.w) IN
         IF ~Legal(w) THEN Chk(IsExc(e), "w_new: illegal vector accepted", s)
         ELSE IF Border(w) /\ IsExc(e) THEN [v |-> "ok", st |-> <<>>]
         ELSE IF ~IsOk(e) THEN Rej("w_new: legal vector rejected", s)
         ELSE Chk(WVec(e.out.v.w) = w, "w_new: wrong amplitudes", w)
    [] e.op = "w_set" ->
         IF ~IsOk(e) THEN Rej("w_set: no value", s)
         ELSE LET w2 == IF e.i \in 1..Len(s) THEN WSet(s, e.i, WEnt(e.e)) ELSE <<>> IN Attempt(s, e, w2, TRUE, "w_set")
    [] e.op = "w_slice" ->
         IF ~IsOk(e) THEN Rej("w_slice: no value", s)
         ELSE Attempt(s, e, WSets(s, [k \in 1..Len(e.es) |-> e.i + (e.step * (k - 1))], WVec(e.es)), e.force = 1, "w_slice")
    [] e.op = "w_bind" ->     \* the bound object is a new one; the original stays
         IF ~IsOk(e) THEN Rej("w_bind: no value", s)
         ELSE IF WVec(e.out.v.orig) # s THEN Rej("w_bind: the original changed", s)
         ELSE Attempt(s, e, WBind(s, [k \in 1..Len(e.m) |-> <<e.m[k][1], WEnt(e.m[k][2])>>]), TRUE, "w_bind")
    [] e.op = "w_eq" ->       \* another wavefunction with the entries e.w, compared both ways
         IF ~IsOk(e) THEN Rej("w_eq: no value", s)
         ELSE LET b == IF WVec(e.w) = s THEN 1 ELSE 0 IN Chk(e.out.v = <<b, b, 1 - b>>, "w_eq: equality of wavefunctions", s)
    [] e.op = "w_flip" ->
         IF ~IsOk(e) THEN Rej("w_flip: no value", s)
         ELSE Chk(WVec(e.out.v.w) = Flip(s), "w_flip: not the bit-reversed vector", Flip(s))
    [] e.op = "w_probs" ->
         IF ~IsOk(e) THEN Rej("w_probs: no value", s)
         ELSE LET n == Log2(Len(s)) IN
              IF e.out.v.probs # [k \in 1..Len(s) |-> RAbs2(s[k].v)] THEN Rej("w_probs: not the squared moduli", s)
              ELSE IF n = 0 THEN Ok(s)        \* the label of an empty register is not specified
              ELSE IF Len(e.out.v.outs) # Len(s) THEN Rej("w_probs: outcomes", s)
              ELSE IF \E i \in 1..Len(s) : ~BitsOK(e.out.v.outs[i][1], n) THEN Rej("w_probs: outcomes", s)
              ELSE Chk(Distinct(e.out.v.outs) /\ \A i \in 1..Len(s) : e.out.v.outs[i][2] = RAbs2(s[OutIdx(Reverse(e.out.v.outs[i][1])) + 1].v),
                       "w_probs: label and probability do not match", s)
    [] e.op = "w_dicke" ->    \* squared amplitudes times the number of states of that weight
         IF e.k < 0 \/ e.k > e.n \/ e.n < 1 THEN Chk(IsExc(e), "w_dicke: invalid state accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("w_dicke: no value", s)
         ELSE Chk(e.out.v = [i \in 1..Pow2(e.n) |-> IF Weight(i-1, e.n) = e.k THEN 1 ELSE 0], "w_dicke: wrong amplitudes", s)
    [] e.op = "w_zero" ->
         IF e.n < 1 THEN Chk(IsExc(e), "w_zero: invalid state accepted", s)
         ELSE IF ~IsOk(e) THEN Rej("w_zero: no value", s)
         ELSE Chk(WVec(e.out.v) = [i \in 1..Pow2(e.n) |-> IF i = 1 THEN EN(ROne) ELSE EN(RZero)], "w_zero: wrong amplitudes", s)
    [] OTHER -> Rej("unknown event", s)

Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
