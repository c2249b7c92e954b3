-------------------------------- MODULE Meas --------------------------------
(* Measurement sets (ordered lists of outcomes), Ising estimators over them, *)
(* outcome distributions, distances between them, and representing a         *)
(* distribution by a given number of outcomes.  Everything is exact: weights *)
(* are integers over a common denominator.                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC
SumF(f(_), S) == FoldSet(LAMBDA x, acc: acc + f(x), 0, S)
SumSeq(s) == FoldLeft(LAMBDA acc, x: acc + x, 0, s)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n-1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- measurement sets ------------------------------------------------------
Rep(x, k) == [i \in 1..k |-> x]
AddCounts(m, c) == FoldLeft(LAMBDA acc, x: acc \o Rep(x[1], x[2]), m, c)
Occ(m, x) == Cardinality({i \in 1..Len(m) : m[i] = x})
Counts(m) == [x \in Range(m) |-> Occ(m, x)]
PairsOf(f) == {<<x, f[x]>> : x \in DOMAIN f}
SamePairs(seq, f) == Len(seq) = Cardinality(DOMAIN f) /\ {<<seq[i][1], seq[i][2]>> : i \in 1..Len(seq)} = PairsOf(f)
\* qubit 0 is the least significant bit of the integer form
IntOf(bits) == FoldLeft(LAMBDA acc, i: acc + (bits[i] * Pow(2, i-1)), 0, [i \in 1..Len(bits) |-> i])
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Occ(a, a[i]) = Occ(b, a[i])
\* ---- Ising estimators: term [f |-> <<qubits>>, c |-> coefficient], coefficients over 4
Sgn(bits, f) == IF FoldLeft(LAMBDA acc, q: acc + bits[q+1], 0, f) % 2 = 0 THEN 1 ELSE -1
SumSgn(m, f) == FoldLeft(LAMBDA acc, x: acc + Sgn(x, f), 0, m)
QSymDiff(f, g) == SelectSeq(f, LAMBDA q: ~\E i \in 1..Len(g) : g[i] = q) \o SelectSeq(g, LAMBDA q: ~\E i \in 1..Len(f) : f[i] = q)
Ev(m, t) == t.c * SumSgn(m, t.f)                             \* over 4N
Corr(m, t, u) == t.c * u.c * SumSgn(m, QSymDiff(t.f, u.f))    \* over 16N
CovNum(m, t, u) == (Len(m) * Corr(m, t, u)) - (Ev(m, t) * Ev(m, u))   \* over 16 N^2 (N or N-1)
Even(m, f) == Cardinality({i \in 1..Len(m) : Sgn(m[i], f) = 1})
\* a value and its precision from even/odd counts; squared precision over N^3
PrecNum(a, b) == LET n == a + b IN IF n >= 100 /\ 10*a >= n /\ 10*a <= 9*n THEN 4*a*b ELSE n*n
\* ---- distributions: sequence of <<outcome, weight>> over a total --------------
KeysOK(ks) == /\ Len(ks) > 0
              /\ \A i \in 1..Len(ks) : Len(ks[i]) = Len(ks[1]) /\ \A j \in 1..Len(ks[i]) : ks[i][j] >= 0
WeightsOK(ws) == \A i \in 1..Len(ws) : ws[i] >= 0
\* big-endian bits
BitsBE(i, n) == [j \in 1..n |-> (i \div Pow(2, n-j)) % 2]
ValBE(bits) == FoldLeft(LAMBDA acc, b: (2*acc) + b, 0, bits)
WAt(d, k) == IF \E i \in 1..Len(d) : d[i][1] = k THEN d[CHOOSE i \in 1..Len(d) : d[i][1] = k][2] ELSE 0
KeySet(d) == {d[i][1] : i \in 1..Len(d)}
\* probabilities 2^-j (or zero), epsilon 2^-e: the likelihood in units of log 2 / W
RECURSIVE Log2Of(_)
Log2Of(x) == IF x = 1 THEN 0 ELSE 1 + Log2Of(x \div 2)
\* W a power of two, measured weights powers of two or zero
NegLogClip(w, W, e) == IF w = 0 THEN e ELSE LET j == Log2Of(W) - Log2Of(w) IN IF j < e THEN j ELSE e
NLL(t, m, W, e) == SumF(LAMBDA k: WAt(t, k) * NegLogClip(WAt(m, k), W, e), KeySet(t) \cup KeySet(m))
JSD2(t, m, W, e) == NLL(t, m, W, e) + NLL(m, t, W, e)
\* kernels 2^(-a d^2), a in the sequence as; numerator over W^2 * Len(as) * 2^S
Mmd(t, m, as, S) ==
  LET K == KeySet(t) \cup KeySet(m)
      D(k) == WAt(t, k) - WAt(m, k)
      Ker(k, l) == LET d == ValBE(k) - ValBE(l) IN FoldLeft(LAMBDA acc, a: acc + Pow(2, S - (a*d*d)), 0, as)
  IN SumF(LAMBDA k: SumF(LAMBDA l: D(k) * D(l) * Ker(k, l), K), K)
\* ---- representing a distribution by n outcomes ---------------------------------
\* share of i: w[i]*n/W.  Nearest integers (two at a tie).
Lo(x, W) == LET q == x \div W  r == x % W IN IF 2*r <= W THEN q ELSE q+1
Hi(x, W) == LET q == x \div W  r == x % W IN IF 2*r < W THEN q ELSE q+1
\* nearest integers, then only additions (they sum to too few) or only removals (too many)
RepOK(w, n, W, c) ==
  /\ SumSeq(c) = n
  /\ \A i \in 1..Len(w) : c[i] >= 0 /\ (w[i] = 0 => c[i] = 0)
  /\ \A i \in 1..Len(w) : (w[i]*n) % W = 0 => c[i] = (w[i]*n) \div W
  /\ LET I == [i \in 1..Len(w) |-> i]
         lo == FoldLeft(LAMBDA acc, i: acc + Lo(w[i]*n, W), 0, I)
         hi == FoldLeft(LAMBDA acc, i: acc + Hi(w[i]*n, W), 0, I) IN
     \/ lo <= n /\ \A i \in 1..Len(w) : c[i] >= Lo(w[i]*n, W)
     \/ hi > n /\ \A i \in 1..Len(w) : c[i] <= Hi(w[i]*n, W)
=============================================================================
