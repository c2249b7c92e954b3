------------------------------- MODULE Graphs --------------------------------
(* Simple weighted graphs: nodes are integers, edges <<u, v, weight>>.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ends(es) == {{es[i][1], es[i][2]} : i \in 1..Len(es)}
Degree(es, n) == Cardinality({i \in 1..Len(es) : n \in {es[i][1], es[i][2]}})
SimpleGraph(ns, es) ==
  /\ \A i, j \in 1..Len(ns) : i # j => ns[i] # ns[j]
  /\ \A i \in 1..Len(es) : es[i][1] # es[i][2] /\ {es[i][1], es[i][2]} \subseteq {ns[k] : k \in 1..Len(ns)}
  /\ Cardinality(Ends(es)) = Len(es)
Range0(n) == 0..(n-1)
Pairs(S) == {p \in SUBSET S : Cardinality(p) = 2}
Complete(n) == Pairs(Range0(n))
Nodes(g) ==
  CASE g.name \in {"erdos_renyi", "complete", "regular"} -> Range0(g.n)
    [] g.name = "caveman" -> Range0(g.a * g.b)
    [] g.name = "ladder" -> Range0(2 * g.a)
    [] g.name = "barbell" -> Range0(2 * g.a)
Valid(g) ==
  CASE g.name = "regular" -> g.a >= 0 /\ g.a < g.n /\ (g.a * g.n) % 2 = 0
    [] g.name = "barbell" -> g.a >= 2
    [] OTHER -> TRUE
\* is this edge set possible for the generator?  prob: 0 = never, 2 = always, 1 = in between
Shape(g, es) ==
  LET E == Ends(es) IN
  CASE g.name = "erdos_renyi" -> (g.prob = 0 => E = {}) /\ (g.prob = 2 => E = Complete(g.n))
         \* p16/16: at most seven standard deviations off
         /\ LET P == (g.n * (g.n - 1)) \div 2 D == (16 * Len(es)) - (P * g.p16) IN g.n >= 16 => D * D <= 49 * P * g.p16 * (16 - g.p16)
    [] g.name = "complete" -> E = Complete(g.n)
    [] g.name = "regular" -> \A n \in Range0(g.n) : Degree(es, n) = g.a
    [] g.name = "caveman" -> E = {p \in Complete(g.a * g.b) : Cardinality({x \div g.b : x \in p}) = 1}
    [] g.name = "ladder" -> E = {{i, i + 1} : i \in Range0(g.a - 1)} \cup {{g.a + i, g.a + i + 1} : i \in Range0(g.a - 1)} \cup {{i, g.a + i} : i \in Range0(g.a)}
    [] g.name = "barbell" -> E = Pairs(Range0(g.a)) \cup {{g.a + x : x \in p} : p \in Pairs(Range0(g.a))} \cup {{g.a - 1, g.a}}
EdgeCount(g) ==
  CASE g.name = "complete" -> (g.n * (g.n - 1)) \div 2
    [] g.name = "regular" -> (g.n * g.a) \div 2
    [] g.name = "caveman" -> g.a * ((g.b * (g.b - 1)) \div 2)
    [] g.name = "ladder" -> (3 * g.a) - 2
    [] g.name = "barbell" -> (g.a * (g.a - 1)) + 1
    [] OTHER -> -1
\* weights <<id, q>>: id identifies the value exactly, q is its floor in 1/1024
Weights(w, es) ==
  CASE w.k = "const" -> \A i \in 1..Len(es) : es[i][3] = w.v[1]
    [] w.k = "choice" -> \A i \in 1..Len(es) : es[i][3] \in {w.v[j] : j \in 1..Len(w.v)}
    [] w.k = "uniform" -> /\ \A i \in 1..Len(es) : w.lo <= es[i][4] /\ es[i][4] <= w.hi
                          /\ Len(es) > 3 => Cardinality({es[i][3] : i \in 1..Len(es)}) > 1
    [] w.k = "normal" -> Len(es) > 3 => Cardinality({es[i][3] : i \in 1..Len(es)}) > 1
\* position of every node in the order of iteration
NodeDict(ns) == {<<ns[i], i - 1>> : i \in 1..Len(ns)}
SameGraph(ns, es, ms, fs) == {ns[i] : i \in 1..Len(ns)} = {ms[i] : i \in 1..Len(ms)} /\ Ends(es) = Ends(fs)
=============================================================================
