------------------------------- MODULE Tools --------------------------------
(* Tools for tests and compatibility: equality groups, translation of older   *)
(* objects in arguments, random test objects, estimator contracts, examples.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
\* ---- equality groups.  An object: class, hash (<<>> none), greedy (equal to anything), stuck (never unequal)
EqOp(a, b) == a.greedy \/ a.cls = b.cls
NeOp(a, b) == ~a.stuck /\ ~EqOp(a, b)
Decent(a) == ~a.greedy /\ ~a.stuck                                   \* towards an object of a type it has never seen
GroupOk(g) == /\ \A i, j \in 1..Len(g) : EqOp(g[i], g[j]) /\ ~NeOp(g[i], g[j])
              /\ \A i \in 1..Len(g) : Decent(g[i])
              /\ \A i, j \in 1..Len(g) : g[i].hash = g[j].hash
Apart(g, h) == \A i \in 1..Len(g), j \in 1..Len(h) : ~EqOp(g[i], h[j]) /\ NeOp(g[i], h[j])
CanAdd(groups, g) == GroupOk(g) /\ \A k \in 1..Len(groups) : Apart(g, groups[k])

\* ---- older objects in arguments.  A tree: old n, leaf n, or a container of items
Fails == [ok |-> FALSE, v |-> [k |-> "none", n |-> 0, items |-> <<>>], met |-> TRUE]
RECURSIVE Trans(_, _, _), TransSeq(_, _, _)
Trans(x, cons, bad) ==
  IF x.k = "old" THEN IF x.n \in bad THEN Fails ELSE [ok |-> TRUE, v |-> [x EXCEPT !.k = "new"], met |-> TRUE]
  ELSE IF x.k \in cons THEN LET r == TransSeq(x.items, cons, bad) IN
                            IF r.ok THEN [ok |-> TRUE, v |-> [x EXCEPT !.items = r.v], met |-> r.met] ELSE Fails
  ELSE [ok |-> TRUE, v |-> x, met |-> FALSE]
TransSeq(xs, cons, bad) ==
  IF xs = <<>> THEN [ok |-> TRUE, v |-> <<>>, met |-> FALSE]
  ELSE LET a == Trans(xs[1], cons, bad) b == TransSeq(Tail(xs), cons, bad) IN
       IF a.ok /\ b.ok THEN [ok |-> TRUE, v |-> <<a.v>> \o b.v, met |-> a.met \/ b.met] ELSE [ok |-> FALSE, v |-> <<>>, met |-> TRUE]
RECURSIVE HasOld(_, _)
HasOld(x, cons) == x.k = "old" \/ (x.k \in cons /\ \E i \in 1..Len(x.items) :
                                                     HasOld(x.items[i], cons))

\* ---- random objects.  Entries are <<re, im>>; numbers are signed marks (equal mark = equal magnitude)
NegC(z) == << -z[1], -z[2] >>
ConjC(z) == << z[1], -z[2] >>
Square(M, n) == Len(M) = n /\ \A i \in 1..n : Len(M[i]) = n
Antisym(M) == \A i, j \in 1..Len(M) : M[i][j] = NegC(M[j][i])
Hermit(M) == \A i, j \in 1..Len(M) : M[i][j] = ConjC(M[j][i])
RealM(M) == \A i, j \in 1..Len(M) : M[i][j][2] = 0
SomeRe(M) == \E i, j \in 1..Len(M) : M[i][j][1] # 0
SomeIm(M) == \E i, j \in 1..Len(M) : M[i][j][2] # 0
\* two-body entries T[p][q][r][s], indices from 1
Four(T, n) == \A p, q, r, s \in 1..n : /\ T[p][q][r][s] = T[q][p][s][r]
                                        /\ T[p][q][r][s] = ConjC(T[s][r][q][p])
Eight(T, n) == \A p, q, r, s \in 1..n : T[p][q][r][s] = T[r][q][p][s]
RealT(T, n) == \A p, q, r, s \in 1..n : T[p][q][r][s][2] = 0
\* spin orbital 2x (up), 2x + 1 (down), counted from zero
Orb(i) == ((i - 1) \div 2) + 1
Spin(i) == (i - 1) % 2
SpinOne(M) == \A i, j \in 1..Len(M) :
   IF Spin(i) # Spin(j) THEN M[i][j] = <<0, 0>> ELSE M[i][j] = M[2 * Orb(i) - 1][2 * Orb(j) - 1]
SpinTwo(T, n) == \A p, q, r, s \in 1..n :
   IF Spin(p) # Spin(s) \/ Spin(q) # Spin(r) THEN T[p][q][r][s] = <<0, 0>>
   ELSE T[p][q][r][s] = T[2 * Orb(p) - 1][2 * Orb(q) - 1][2 * Orb(r) - 1][2 * Orb(s) - 1]
\* ---- estimator contracts: how an estimator treats its list of results
\* order: "ok", "drop" (last missing), "rev" (reversed), "dup" (last twice); coef, const: taken into account?
Contract(i, b) ==
  CASE i = 1 -> b.order \in {"ok", "rev"}
    [] i = 2 -> b.order \in {"ok", "dup"}
    [] i = 3 -> b.order # "drop" /\ b.coef
    [] i = 4 -> b.order # "drop" /\ b.const
\* ---- example functions
RECURSIVE Bin(_)
Bin(n) == IF n < 2 THEN ToString(n) ELSE Bin(n \div 2) \o ToString(n % 2)
Fun(name, c, x) ==
  CASE name = "function_1" -> (x[1] * x[1]) - (x[1] * x[2])
    [] name = "Function2" -> c * ((x[1] - (x[1] * x[2])) + (x[3] * x[3]))
    [] name = "Function5" -> c * (x[1] * x[2] * x[3])
    [] name = "sum_of_squares" -> FoldLeft(LAMBDA a, y: a + (y * y), 0, x)
Grad(name, c, x) ==
  CASE name = "function_1" -> << (2 * x[1]) - x[2], -x[1] >>
    [] name = "Function2" -> << c * (1 - x[2]), -(c * x[1]), 2 * c * x[3] >>
    [] name = "Function5" -> << c * x[2] * x[3], c * x[1] * x[3], c * x[1] * x[2] >>
    [] name = "sum_of_squares" -> [i \in 1..Len(x) |-> 2 * x[i]]
Arity(name) == CASE name = "function_1" -> 2 [] name \in {"Function2", "Function5"} -> 3 [] OTHER -> 2
=============================================================================
