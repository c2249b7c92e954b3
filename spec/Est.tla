-------------------------------- MODULE Est ---------------------------------
(* Estimation problems: tasks [id, sh, t] (circuit, shots, operator terms),   *)
(* grouping, basis changes, shot allocation, estimation by averaging and      *)
(* exactly, and cost functions built on them.                                 *)
(* A term is [c |-> integer, f |-> <<<<qubit, "X">>, ..>>]; shots -1 = none.  *)
EXTENDS Pauli, Circ, Meas
TermSet(ts) == {ts[i] : i \in 1..Len(ts)}
\* ---- grouping ---------------------------------------------------------------
CoMeas(f, g) == \A i \in 1..Len(f), j \in 1..Len(g) : f[i][1] = g[j][1] => f[i][2] = g[j][2]
SharedBasis(ts) == \A i, j \in 1..Len(ts) : CoMeas(ts[i].f, ts[j].f)
Fits(t, grp) == \A i \in 1..Len(grp) : CoMeas(t.f, grp[i].f)
PutTerm(gs, t) ==
  IF \E k \in 1..Len(gs) : Fits(t, gs[k])
  THEN LET k == CHOOSE k \in 1..Len(gs) : Fits(t, gs[k]) /\ \A j \in 1..(k-1) : ~Fits(t, gs[j])
       IN [gs EXCEPT ![k] = Append(@, t)]
  ELSE Append(gs, <<t>>)
ByMagnitude(ts) ==      \* stable, larger coefficients first
  LET idx == SortSeq([i \in 1..Len(ts) |-> i], LAMBDA a, b: Abs(ts[a].c) > Abs(ts[b].c) \/ (Abs(ts[a].c) = Abs(ts[b].c) /\ a < b))
  IN [i \in 1..Len(ts) |-> ts[idx[i]]]
Greedy(ts) == LET nc == SelectSeq(ts, LAMBDA t: t.f # <<>>)
                  cc == SelectSeq(ts, LAMBDA t: t.f = <<>>)
                  gs == FoldLeft(PutTerm, <<>>, nc)
              IN IF cc = <<>> THEN gs ELSE Append(gs, cc)
Grouping(how, ts) == CASE how = "ind" -> [i \in 1..Len(ts) |-> <<ts[i]>>]
                       [] how = "greedy" -> Greedy(ts)
                       [] how = "sorted" -> Greedy(ByMagnitude(ts))
\* sequences of groups, each compared as a set of terms; groups in any order
SameGroups(a, b) == Len(a) = Len(b) /\ (\A i \in 1..Len(a) : Len(a[i]) = Cardinality(TermSet(a[i])))
                    /\ {TermSet(a[i]) : i \in 1..Len(a)} = {TermSet(b[i]) : i \in 1..Len(b)}
\* ---- tasks that need no measurement ------------------------------------------
IsConst(t) == Len(t) = 1 /\ t[1].f = <<>>
Trivial(task) == IsConst(task.t) \/ task.sh = 0
TrivialValue(task) == IF IsConst(task.t) THEN task.t[1].c ELSE 0
Where(tasks, P(_)) == SelectSeq([i \in 1..Len(tasks) |-> i], LAMBDA i: P(tasks[i]))
\* estimation: values of the trivial and of the measured tasks, merged by original index
Merge(n, it, vt, im, vm) ==
  [i \in 1..n |-> IF \E k \in 1..Len(it) : it[k] = i THEN vt[CHOOSE k \in 1..Len(it) : it[k] = i]
                  ELSE vm[CHOOSE k \in 1..Len(im) : im[k] = i]]
\* ---- basis change --------------------------------------------------------------
ZOf(f) == [i \in 1..Len(f) |-> <<f[i][1], "Z">>]
\* measuring zf after M is measuring f before it: zf M = M f on every basis state
Diagonalizes(ops, n, f, zf) ==
  \A b \in 0..(Pow2(n)-1) :
     PauliApply(zf, n, RunOps(ops, n, Basis(n, b))) = RunOps(ops, n, PauliApply(f, n, Basis(n, b)))
IsUnitary(ops, n) == LET M == Unitary(ops, n) IN MMul(Adj(M), M) = IdM(Pow2(n))
WellPlaced(o, n) == Len(o.q) = GArity(o.g) /\ (\A i \in 1..Len(o.q) : o.q[i] \in 0..(n-1)) /\ Cardinality({o.q[i] : i \in 1..Len(o.q)}) = Len(o.q)
AllZ(f) == \A i \in 1..Len(f) : f[i][2] = "Z"
\* the context circuit of the specification: one basis change per X or Y factor
ContextOf(ts) ==
  LET fs == FoldLeft(LAMBDA acc, t: acc \o SelectSeq(t.f, LAMBDA x: ~\E i \in 1..Len(acc): acc[i] = x), <<>>, ts)
      nz == SelectSeq(fs, LAMBDA x: x[2] # "Z")
  IN [i \in 1..Len(nz) |-> [g |-> IF nz[i][2] = "X" THEN MkGate("RY", <<<<-2,0>>>>) ELSE MkGate("RX", <<<<2,0>>>>), q |-> <<nz[i][1]>>]]
\* ---- shot allocation -------------------------------------------------------------
RECURSIVE Isqrt2(_, _, _)
Isqrt2(x, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= x THEN Isqrt2(x, mid, hi) ELSE Isqrt2(x, lo, mid - 1)
Isqrt(x) == Isqrt2(x, 0, 46340)
IsSquare(x) == Isqrt(x) * Isqrt(x) = x
\* integers n over weights w, total N: floors, the rest to largest remainders
LargestRemainder(w, N, n) ==
  LET W == SumSeq(w) IN
  /\ Len(n) = Len(w) /\ SumSeq(n) = N
  /\ \A i \in 1..Len(w) : n[i] \in {(w[i]*N) \div W, ((w[i]*N) \div W) + 1}
  /\ \A i, j \in 1..Len(w) : (n[i] > (w[i]*N) \div W /\ n[j] = (w[j]*N) \div W) => ((w[i]*N) % W) >= ((w[j]*N) % W)
\* variance of a group: without priors sum of squares of the non-constant coefficients;
\* with priors e (over 5) sum c^2 (25 - e^2), over 25
Var0(t) == FoldLeft(LAMBDA acc, x: acc + (IF x.f = <<>> THEN 0 ELSE x.c * x.c), 0, t)
VarP(t, e) == FoldLeft(LAMBDA acc, i: acc + (t[i].c * t[i].c * (25 - (e[i] * e[i]))), 0, [i \in 1..Len(t) |-> i])
Offsets(frames) == [i \in 1..Len(frames) |-> FoldLeft(LAMBDA acc, j: acc + Len(frames[j]), 0, [j \in 1..(i-1) |-> j])]
Weights(frames, has, prior) ==
  LET off == Offsets(frames) IN
  TLCEval([i \in 1..Len(frames) |-> Isqrt(IF has = 0 THEN Var0(frames[i]) ELSE VarP(frames[i], SubSeq(prior, off[i]+1, off[i]+Len(frames[i]))))])
PriorOK(frames, prior) == Len(prior) = SumSeq([i \in 1..Len(frames) |-> Len(frames[i])]) /\ \A i \in 1..Len(prior) : prior[i] \in -5..5
\* ---- values ------------------------------------------------------------------------
QTerm(t) == [f |-> [i \in 1..Len(t.f) |-> t.f[i][1]], c |-> t.c]
RCoef(c) == RNorm(<<c, 0, 0, 0, 4, 0>>)         \* c/4
ExactValues(ops, n, ts) ==
  LET v == RunOps(ops, n, Basis(n, 0)) IN TLCEval([i \in 1..Len(ts) |-> TermValue([c |-> RCoef(ts[i].c), f |-> ts[i].f], n, v)])
NMax(ts, n) == SetMax({n} \cup UNION {{ts[i].f[j][1] + 1 : j \in 1..Len(ts[i].f)} : i \in 1..Len(ts)})
=============================================================================
