------------------------------- MODULE Layout -------------------------------
(* Which qubit pairs a layout connects, and what a legal layering of them is *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pair(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
LineEdges(n) == {<<i, i+1>> : i \in 0..n-2}
\* x qubits per row, y rows; odd rows connect diagonally to both neighbours
GridEdges(x, y) ==
  LET odd == {r \in 0..y-1 : r % 2 = 1}
      near(r) == {s \in {r-1, r+1} : s >= 0 /\ s < y}
  IN UNION {UNION {{Pair(r*x + c, s*x + c + d) : d \in {dd \in {0,1} : c + dd < x}} : s \in near(r)} : r \in odd, c \in 0..x-1}
Edges(kind, x, y) == IF kind = "nearest-neighbor" THEN LineEdges(x) ELSE GridEdges(x, y)
PairsOf(seq) == {Pair(seq[i][1], seq[i][2]) : i \in 1..Len(seq)}
DisjointLayer(layer) == \A i, j \in 1..Len(layer) : i # j =>
   {layer[i][1], layer[i][2]} \cap {layer[j][1], layer[j][2]} = {}
\* how many entries of a sequence of layers join the pair p
Occurrences(p, layers) == Cardinality({x \in UNION {{<<i, j>> : j \in 1..Len(layers[i])} : i \in 1..Len(layers)} :
                              Pair(layers[x[1]][x[2]][1], layers[x[1]][x[2]][2]) = p})
\* layers: sequence of sequences of pairs
Layering(layers, E) ==
  /\ \A i \in 1..Len(layers) : DisjointLayer(layers[i])
  /\ UNION {PairsOf(layers[i]) : i \in 1..Len(layers)} = E
  /\ \A i, j \in 1..Len(layers) : i # j => PairsOf(layers[i]) \cap PairsOf(layers[j]) = {}
=============================================================================
