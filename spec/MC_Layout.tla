------------------------------ MODULE MC_Layout -----------------------------
(* For every array size: the intended edges stay inside the register, the    *)
(* grid is bipartite between even and odd rows with degree at most four, and *)
(* a greedy layering process (place any unplaced edge in a layer it is       *)
(* disjoint from) always ends in a legal layering of exactly these edges.    *)
EXTENDS Layout
CONSTANTS MaxX, MaxY
VARIABLES kind, x, y, layers, left
Init == /\ kind \in {"nearest-neighbor", "sycamore"} /\ x \in 1..MaxX /\ y \in 1..MaxY
        /\ left = Edges(kind, x, y) /\ layers = <<>>
Fits(e, l) == \A i \in 1..Len(l) : {l[i][1], l[i][2]} \cap {e[1], e[2]} = {}
\* deterministic choice of edge, first fitting layer
Next == /\ left # {}
        /\ LET e == CHOOSE e \in left : TRUE
               ok == {i \in 1..Len(layers) : Fits(e, layers[i])}
           IN /\ left' = left \ {e}
              /\ layers' = IF ok = {} THEN Append(layers, <<e>>)
                           ELSE LET i == CHOOSE i \in ok : \A j \in ok : i <= j IN [layers EXCEPT ![i] = Append(@, e)]
        /\ UNCHANGED <<kind, x, y>>
N == IF kind = "sycamore" THEN x * y ELSE x
Inside == \A e \in Edges(kind, x, y) : e[1] \in 0..N-1 /\ e[2] \in 0..N-1 /\ e[1] # e[2]
Degree == \A v \in 0..N-1 : Cardinality({e \in Edges(kind, x, y) : e[1] = v \/ e[2] = v}) <= (IF kind = "sycamore" THEN 4 ELSE 2)
Bip == kind = "sycamore" => \A e \in Edges(kind, x, y) : ((e[1] \div x) - (e[2] \div x)) \in {-1, 1}
Done == left = {} => Layering(layers, Edges(kind, x, y))
=============================================================================
