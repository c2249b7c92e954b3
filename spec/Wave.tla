-------------------------------- MODULE Wave --------------------------------
(* Wavefunction objects.  An entry is [t |-> "n", v |-> Ring] or             *)
(* [t |-> "s", i |-> symbol].  Entries have rational squared modulus.        *)
EXTENDS QGates
EN(v) == [t |-> "n", v |-> v]
ES(i) == [t |-> "s", i |-> i]
Symbolic(w) == \E i \in 1..Len(w) : w[i].t = "s"
NumNorm(w) == FoldLeft(LAMBDA acc, e: IF e.t = "n" THEN RAdd(acc, RAbs2(e.v)) ELSE acc, RZero, w)
RECURSIVE Pow5(_)
Pow5(n) == IF n = 0 THEN 1 ELSE 5 * Pow5(n-1)
LeqOne(r) == r[1] <= Pow2(r[5] \div 2) * Pow5(r[6])
IsPow2(n) == n >= 1 /\ \E k \in 0..12 : n = Pow2(k)
Legal(w) == IsPow2(Len(w)) /\ (IF Symbolic(w) THEN LeqOne(NumNorm(w)) ELSE NumNorm(w) = ROne)
WSet(w, i, e) == [w EXCEPT ![i] = e]
WSets(w, is, es) == FoldLeft(LAMBDA acc, k: [acc EXCEPT ![is[k]] = es[k]], w, [k \in 1..Len(is) |-> k])
\* m: sequence of <<symbol, entry>>
WBind(w, m) == TLCEval([k \in 1..Len(w) |->
   IF w[k].t = "s" /\ \E j \in 1..Len(m) : m[j][1] = w[k].i
   THEN m[CHOOSE j \in 1..Len(m) : m[j][1] = w[k].i][2] ELSE w[k]])
RevBits(i, n) == FoldLeft(LAMBDA acc, q: (2 * acc) + Bit(i, n-1-q, n), 0, [q \in 1..n |-> q-1])
Flip(w) == LET n == Log2(Len(w)) IN TLCEval([k \in 1..Len(w) |-> w[RevBits(k-1, n) + 1]])
Weight(i, n) == FoldLeft(LAMBDA acc, q: acc + Bit(i, q-1, n), 0, [q \in 1..n |-> q])
=============================================================================
