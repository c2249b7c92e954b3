------------------------------ MODULE MC_Tools -------------------------------
(* Histories of equality groups, next to the trees of arguments they cannot   *)
(* confuse, and laws of the examples and contracts.                           *)
EXTENDS Tools
CONSTANTS MaxGroups
VARIABLES groups, last
vars == <<groups, last>>
Obj == [cls : {1, 2, 3}, hash : {<<>>, <<1>>, <<2>>}, greedy : {FALSE}, stuck : {FALSE}]
       \cup [cls : {2}, hash : {<<1>>}, greedy : BOOLEAN, stuck : BOOLEAN]
Items == [1..1 -> Obj] \cup [1..2 -> Obj]
Init == groups = <<>> /\ last = <<>>
Next == Len(groups) < MaxGroups /\ \E g \in Items :
           IF CanAdd(groups, g) THEN groups' = Append(groups, g) /\ last' = <<TRUE>>
           ELSE groups' = groups /\ last' = <<FALSE>>
\* accepted groups are the classes of an equivalence
Disjoint == \A i, j \in 1..Len(groups) : i # j => Apart(groups[i], groups[j]) /\ Apart(groups[j], groups[i])
Uniform == \A i \in 1..Len(groups) : /\ Cardinality({groups[i][k].cls : k \in 1..Len(groups[i])}) = 1
                                      /\ Cardinality({groups[i][k].hash : k \in 1..Len(groups[i])}) = 1
                                      /\ \A k \in 1..Len(groups[i]) : Decent(groups[i][k])
Kept == [][\A i \in 1..Len(groups) : groups'[i] = groups[i]]_vars
AtMost == Len(groups) <= 3          \* there are three classes
\* trees
N(k, n, items) == [k |-> k, n |-> n, items |-> items]
Leaves == {N("old", 1, <<>>), N("old", 2, <<>>), N("leaf", 1, <<>>)}
T1 == Leaves \cup {N(k, 0, s) : k \in {"list", "tuple", "sub"}, s \in UNION {[1..m -> Leaves] : m \in 0..2}}
T2 == T1 \cup {N(k, 0, <<x>>) : k \in {"list", "tuple"}, x \in T1}
TransLaws ==
  \A x \in T2, cons \in SUBSET {"list", "tuple"}, bad \in {{}, {2}} :
     LET r == Trans(x, cons, bad) IN
     /\ (~HasOld(x, cons) => r.ok /\ r.v = x /\ ~r.met)
     /\ (r.ok => ~HasOld(r.v, cons) /\ Trans(r.v, cons, bad).v = r.v)        \* nothing left to translate
     /\ (HasOld(x, cons) => r.met)
     /\ (bad = {} => r.ok)
ASSUME TransLaws
\* gradients are the derivatives: symmetric differences are exact for these polynomials of degree two in each variable
Pts == {<<a, b, c>> : a \in -2..2, b \in -2..2, c \in -2..2}
ASSUME \A f \in {"function_1", "Function2", "Function5", "sum_of_squares"}, x \in Pts, k \in {1, 3} :
  LET y == SubSeq(x, 1, Arity(f)) IN
  \A i \in 1..Arity(f) :
     (2 * Grad(f, k, y)[i]) = Fun(f, k, [y EXCEPT ![i] = @ + 1]) - Fun(f, k, [y EXCEPT ![i] = @ - 1])
\* exactly the estimators that do everything right satisfy all contracts, and each contract matters
Bs == [order : {"ok", "drop", "rev", "dup"}, coef : BOOLEAN, const : BOOLEAN]
ASSUME \A b \in Bs : (\A i \in 1..4 : Contract(i, b)) <=> (b.order = "ok" /\ b.coef /\ b.const)
ASSUME \A i \in 1..4 : \E b \in Bs :
          ~Contract(i, b) /\ \A j \in (1..4) \ {i} :
                               Contract(j, b)
ASSUME Bin(0) = "0" /\ Bin(1) = "1" /\ Bin(6) = "110" /\ Bin(37) = "100101"
=============================================================================
