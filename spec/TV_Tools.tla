------------------------------ MODULE TV_Tools -------------------------------
(* Traces of the testing and compatibility tools.                             *)
EXTENDS TraceLib, Tools
VARIABLES sid, l, st
AsSet(s) == {s[i] : i \in 1..Len(s)}
Tuple(r) == [i \in 1..Len(r) |-> r[i]]
CompatOk(e) ==
  LET cons == AsSet(e.cons) bad == AsSet(e.bad)
      r == TransSeq(e.args, cons, bad)
      o == e.out.v
      got == IF r.ok THEN "wrapped" ELSE IF e.fb = 1 THEN "fallback" ELSE "none" IN
  IF o.after # e.args THEN "compat: the caller's objects changed"
  ELSE IF o.called # <<got>> /\ ~(got = "none" /\ o.called = <<>>) THEN "compat: wrong function called"
  ELSE IF r.ok /\ o.got # r.v THEN "compat: wrong arguments"
  ELSE IF ~r.ok /\ e.fb = 1 /\ o.got # e.args THEN "compat: fallback called with other arguments"
  ELSE IF r.ok /\ o.res # (IF e.raises = 1 THEN "ValueError" ELSE "value") THEN "compat: result of the function lost"
  ELSE IF ~r.ok /\ e.fb = 1 /\ o.res # "other" THEN "compat: result of the fallback lost"
  ELSE IF ~r.ok /\ e.fb = 0 /\ o.res # "TranslationFailed" THEN "compat: failed translation not reported"
  ELSE IF (o.dep = 1) # (e.msg = 1 /\ r.met) THEN "compat: deprecation warning"
  ELSE IF (o.fbw = 1) # (~r.ok /\ e.fb = 1) THEN "compat: warning about the fallback"
  ELSE "ok"
MatrixOk(e) ==
  LET M == e.out.v.M n == e.n IN
  IF ~Square(M, n) THEN "matrix: wrong shape"
  ELSE IF e.out.v.again # M THEN "matrix: not the same under the same seed"
  ELSE IF e.kind = "antisymmetric" /\ ~Antisym(M) THEN "matrix: not antisymmetric"
  ELSE IF e.kind = "hermitian" /\ ~Hermit(M) THEN "matrix: not Hermitian"
  ELSE IF e.kind = "unitary" /\ e.out.v.gram # [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE <<0, 0>>]] THEN "matrix: not unitary"
  ELSE IF e.real = 1 /\ ~RealM(M) THEN "matrix: not real"
  ELSE IF n >= 2 /\ (~SomeRe(M) \/ (e.real = 0 /\ ~SomeIm(M))) THEN "matrix: not random"
  ELSE "ok"
InterOk(e) ==
  LET v == e.out.v n == IF e.spin = 1 THEN 2 * e.n ELSE e.n IN
  IF Len(v.one) # n \/ Len(v.two) # n THEN "interaction operator: wrong size"
  ELSE IF v.again # 1 THEN "interaction operator: not the same under the same seed"
  ELSE IF v.const[2] # 0 THEN "interaction operator: constant not real"
  ELSE IF ~Hermit(v.one) \/ ~Four(v.two, n) THEN "interaction operator: not Hermitian"
  ELSE IF e.real = 1 /\ ~(RealM(v.one) /\ RealT(v.two, n)) THEN "interaction operator: not real"
  ELSE IF e.real = 1 /\ e.spin = 0 /\ ~Eight(v.two, n) THEN "interaction operator: not symmetric"
  ELSE IF e.real = 0 /\ n >= 2 /\ e.spin = 0 /\ ~SomeIm(v.one) THEN "interaction operator: not complex"
  ELSE IF e.spin = 1 /\ ~(SpinOne(v.one) /\ SpinTwo(v.two, n)) THEN "interaction operator: spins mixed"
  ELSE "ok"
TermOk(e) ==
  LET v == e.out.v n == e.n IN
  IF Len(v.one) # n \/ Len(v.two) # n THEN "interaction term: wrong size"
  ELSE IF v.again # 1 THEN "interaction term: not the same under the same seed"
  ELSE IF v.const # <<0, 0>> THEN "interaction term: constant"
  ELSE IF ~Hermit(v.one) \/ ~Four(v.two, n) THEN "interaction term: not Hermitian"
  ELSE IF e.real = 1 /\ ~(RealM(v.one) /\ RealT(v.two, n) /\ Eight(v.two, n)) THEN "interaction term: not real"
  ELSE IF \E i, j \in 1..n : Cardinality({i, j}) # n /\ v.one[i][j] # <<0, 0>> THEN "interaction term: wrong one-body entry"
  ELSE IF \E p, q, r, s \in 1..n : Cardinality({p, q, r, s}) # n /\ v.two[p][q][r][s] # <<0, 0>> THEN "interaction term: wrong two-body entry"
  ELSE IF n \in 1..4 /\ \A p, q, r, s \in 1..n : v.two[p][q][r][s] = <<0, 0>> THEN "interaction term: empty"
  ELSE "ok"
QopOk(e) ==
  LET T == e.out.v.terms IN
  IF e.out.v.again # 1 THEN "random operator: not the same under the same seed"
  ELSE IF \E i \in 1..Len(T) : \E j \in 1..Len(T[i].f) :
            T[i].f[j][1] < 0 \/ T[i].f[j][1] >= e.nq \/ T[i].f[j][2] \notin AsSet(e.acts) THEN "random operator: outside"
  ELSE IF \E i \in 1..Len(T) : Len(T[i].f) > e.order THEN "random operator: term too long"
  ELSE IF Len(T) > e.max THEN "random operator: too many terms"
  ELSE IF e.unit = 1 /\ ((\E i \in 1..Len(T) : T[i].c < 1) \/ FoldLeft(LAMBDA a, t: a + t.c, 0, T) # e.max) THEN "random operator: wrong coefficients"
  ELSE "ok"
Verdict(s, e) ==
  IF ~IsOk(e) THEN e.op \o ": failed"
  ELSE CASE e.op = "compat" -> CompatOk(e)
    [] e.op = "matrix" -> MatrixOk(e)
    [] e.op = "inter" -> InterOk(e)
    [] e.op = "interterm" -> TermOk(e)
    [] e.op = "qop" -> QopOk(e)
    [] e.op = "wave" -> IF e.out.v.norm # 1 \/ e.out.v.len # 2 ^ e.n THEN "random state: not a state"
                        ELSE IF e.out.v.again # 1 THEN "random state: not the same under the same seed" ELSE "ok"
    [] e.op = "contract" -> IF e.out.v # [i \in 1..4 |-> IF Contract(i, [order |-> e.order, coef |-> e.coef = 1, const |-> e.const = 1]) THEN 1 ELSE 0]
                            THEN "estimator contract: wrong answer" ELSE "ok"
    [] e.op = "fun" -> IF e.out.v.val # Fun(e.name, e.c, e.x) THEN "example function: wrong value"
                       ELSE IF e.out.v.grad # (IF e.name = "sum_of_squares" THEN <<>> ELSE Grad(e.name, e.c, e.x)) THEN "example function: wrong gradient"
                       ELSE IF e.out.v.art # (IF e.name = "Function5" /\ e.x[1] > 0 THEN << [n |-> "something", v |-> e.x[1] + e.x[2], f |-> 0] >> ELSE <<>>) THEN "example function: wrong artifacts"
                       ELSE "ok"
    [] e.op = "store" -> IF e.out.v.val # 2 * e.x THEN "example function: wrong value"
                         ELSE IF e.out.v.art # << [n |-> "bitstring", v |-> Bin(e.x), f |-> IF e.force = 1 /\ e.x % 2 = 0 THEN 1 ELSE 0] >> THEN "example function: wrong artifacts"
                         ELSE IF e.out.v.bare # 2 * e.x THEN "example function: wrong value" ELSE "ok"
    [] e.op = "importable" -> IF e.out.v # e.there THEN "module importable: wrong answer" ELSE "ok"
    [] e.op = "deprecated" -> IF e.out.v.same # 1 THEN "wrapped module: another attribute"
                              ELSE IF e.out.v.warned # e.dep THEN "wrapped module: warning" ELSE "ok"
    [] OTHER -> "unknown event " \o e.op
AsObj(x) == [cls |-> x.cls, hash |-> x.hash, greedy |-> x.greedy = 1, stuck |-> x.stuck = 1]
Step(s, e) ==
  IF e.op = "group"
  THEN LET g == [i \in 1..Len(e.items) |-> AsObj(e.items[i])] ok == CanAdd(s, g) IN
       IF e.out.k = "exc" /\ e.out.e # "AssertionError" THEN Rej("equality group: failed", s)
       ELSE IF IsOk(e) # ok THEN Rej(IF ok THEN "equality group: rejected" ELSE "equality group: accepted", s)
       ELSE Ok(IF ok THEN Append(s, g) ELSE s)
  ELSE LET v == Verdict(s, e) IN IF v = "ok" THEN Ok(s) ELSE Rej(v, s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
