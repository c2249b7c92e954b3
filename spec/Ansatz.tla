------------------------------- MODULE Ansatz -------------------------------
(* An ansatz: settings that define a circuit, a cached parametrized circuit, *)
(* and executable circuits obtained by binding sorted symbols to values.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, NatKey
\* settings: L layers, q qubits, x kind of rotation, y = 1: a final layer
\* gates <<name, <<1, symbol>> or <<0, value>>, qubit>>; symbols 1..L per layer, 7.. second family
Rot(x) == <<"RX", "RY", "RZ">>[x + 1]
LayerOps(a, lay) == [k \in 1..a.q |-> <<Rot(a.x), <<1, lay>>, k - 1>>] \o (IF a.y = 1 THEN << <<"PHASE", <<1, 6 + lay>>, 0>> >> ELSE <<>>)
CircOf(a) == IF a.q = 0 THEN <<>> ELSE FoldLeft(LAMBDA acc, lay: acc \o LayerOps(a, lay), <<>>, [i \in 1..a.L |-> i])
SymsOf(c) == {c[i][2][2] : i \in {j \in 1..Len(c) : c[j][2][1] = 1}}
\* the user's order of symbols: default reverse-lexicographic natural key, or given ranks
SymLess(names, ranks, s, t) == IF ranks = <<>> THEN CmpK(RevKey(names[s]), RevKey(names[t])) < 0 ELSE ranks[s] < ranks[t]
SortedOf(c, names, ranks) == SetToSortSeq(SymsOf(c), LAMBDA s, t: SymLess(names, ranks, s, t))
BindA(c, order, ps) == [i \in 1..Len(c) |-> IF c[i][2][1] = 1 THEN <<c[i][1], <<0, ps[PosIn(order, c[i][2][2])]>>, c[i][3]>> ELSE c[i]]
=============================================================================
