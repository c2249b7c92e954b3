------------------------------- MODULE MC_Est -------------------------------
(* Estimation machine: a list of tasks is split, the measurable ones are     *)
(* requested (in any batches), results come back, everything is merged.      *)
EXTENDS Est, Json
VARIABLES tasks, req, res, pc
vars == <<tasks, req, res, pc>>
C1 == [c |-> 3, f |-> <<>>]
Z1 == [c |-> 4, f |-> << <<0,"Z">> >>]
Kinds == {[sh |-> 5, t |-> <<Z1>>], [sh |-> 0, t |-> <<Z1>>], [sh |-> 5, t |-> <<C1>>], [sh |-> 0, t |-> <<C1>>], [sh |-> 2, t |-> <<Z1, C1>>], [sh |-> 0, t |-> <<C1, Z1>>]}
Init == /\ \E n \in 0..4 : \E f \in [1..n -> Kinds] : tasks = [i \in 1..n |-> [id |-> i, sh |-> f[i].sh, t |-> f[i].t]]
        /\ req = <<>> /\ res = <<>> /\ pc = "split"
Val(i) == 100 + i                       \* the result of measuring task i
IM == Where(tasks, LAMBDA t: ~Trivial(t))
IT == Where(tasks, LAMBDA t: Trivial(t))
Split == pc = "split" /\ pc' = "run" /\ UNCHANGED <<tasks, req, res>>
Run == pc = "run" /\ Len(req) < Len(IM) /\ req' = Append(req, IM[Len(req)+1]) /\ UNCHANGED <<tasks, res, pc>>
Join == /\ pc = "run" /\ Len(req) = Len(IM) /\ pc' = "done"
        /\ res' = Merge(Len(tasks), IT, [k \in 1..Len(IT) |-> TrivialValue(tasks[IT[k]])], IM, [k \in 1..Len(IM) |-> Val(req[k])])
        /\ UNCHANGED <<tasks, req>>
        /\ PrintT("GEN:" \o ToJson([i \in 1..Len(tasks) |-> [sh |-> tasks[i].sh, t |-> tasks[i].t]]))
Next == Split \/ Run \/ Join
NothingLost == Len(IM) + Len(IT) = Len(tasks) /\ {IM[i] : i \in 1..Len(IM)} \cup {IT[i] : i \in 1..Len(IT)} = 1..Len(tasks)
InOrder == pc = "done" => /\ Len(res) = Len(tasks)
                          /\ \A i \in 1..Len(tasks) : res[i] = IF Trivial(tasks[i]) THEN TrivialValue(tasks[i]) ELSE Val(i)
RequestsOK == \A i \in 1..Len(req) : tasks[req[i]].sh > 0 /\ \A j \in 1..Len(req) : i # j => req[i] # req[j]
\* ---- grouping, on every ordered choice of up to three terms over two qubits
P2 == {<<>>} \cup {<< <<q,p>> >> : q \in 0..1, p \in {"X","Y","Z"}} \cup {<< <<0,p>>, <<1,r>> >> : p, r \in {"X","Y","Z"}}
Ops3 == {<<[c |-> 2, f |-> a]>> : a \in P2} \cup {<<[c |-> 2, f |-> ab[1]], [c |-> -3, f |-> ab[2]]>> : ab \in {x \in P2 \X P2 : x[1] # x[2]}}
        \cup {<<[c |-> 2, f |-> x[1]], [c |-> -3, f |-> x[2]], [c |-> 1, f |-> x[3]]>> : x \in {y \in P2 \X P2 \X P2 : y[1] # y[2] /\ y[2] # y[3] /\ y[1] # y[3]}}
Flat(gs) == FoldLeft(LAMBDA acc, g: acc \o g, <<>>, gs)
ASSUME \A ts \in Ops3 : \A how \in {"ind", "greedy", "sorted"} :
         LET gs == Grouping(how, ts) IN
         /\ Len(Flat(gs)) = Len(ts) /\ TermSet(Flat(gs)) = TermSet(ts)
         /\ \A i \in 1..Len(gs) : SharedBasis(gs[i]) /\ Len(gs[i]) > 0
\* ---- the context circuit diagonalizes every group (pairs of co-measurable terms, two qubits)
ASSUME \A f, g \in P2 : CoMeas(f, g) =>
         LET ts == <<[c |-> 1, f |-> f], [c |-> 1, f |-> g]>> ops == ContextOf(ts) IN
         IsUnitary(ops, 2) /\ Diagonalizes(ops, 2, f, ZOf(f)) /\ Diagonalizes(ops, 2, g, ZOf(g))
\* ---- largest remainders: some allocation always exists, and conserves the budget
ASSUME \A a, b, c \in 0..4, N \in 1..6 : (a + b + c > 0) =>
         LET w == <<a, b, c>> S == {n \in (0..N) \X (0..N) \X (0..N) : LargestRemainder(w, N, n)} IN
         S # {} /\ \A n \in S : \A i \in 1..3 : w[i] = 0 => n[i] = 0
=============================================================================
