-------------------------------- MODULE Circ --------------------------------
(* Circuits as values: a register file of circuits, each [n, ops], an op is  *)
(* [g |-> [n,p,d,c] with symbolic parameters, q].  The operations below are  *)
(* the transitions of the circuit-building interface.                        *)
EXTENDS QGates, LinExpr

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Size(ops) == IF Len(ops) = 0 THEN 0
             ELSE SetMax(UNION {{ops[i].q[j] : j \in 1..Len(ops[i].q)} : i \in 1..Len(ops)}) + 1
Max2(a, b) == IF a > b THEN a ELSE b
MkCirc(ops, n) == [n |-> IF n = 0 THEN Size(ops) ELSE n, ops |-> ops]
AppendOp(c, op) == [n |-> Max2(c.n, SetMax({op.q[j] : j \in 1..Len(op.q)}) + 1), ops |-> Append(c.ops, op)]
Concat(c, d) == [n |-> Max2(c.n, d.n), ops |-> c.ops \o d.ops]
BindOp(op, m) == [op EXCEPT !.g.p = ParamsSubst(op.g.p, m)]
BindC(c, m) == [n |-> c.n, ops |-> TLCEval([i \in 1..Len(c.ops) |-> BindOp(c.ops[i], m)])]
OpSyms(op) == ParamSyms(op.g.p)
FreeSyms(c) == AppearOrder([i \in 1..Len(c.ops) |-> OpSyms(c.ops[i])])
\* maximal runs of constant predicate value; pv is the predicate value per operation
RECURSIVE Runs(_, _, _)
Runs(ops, pv, n) ==
  IF Len(ops) = 0 THEN <<>>
  ELSE LET k == CHOOSE k \in 1..Len(ops) : /\ \A i \in 1..k : pv[i] = pv[1]
                                           /\ (k = Len(ops) \/ pv[k+1] # pv[1])
       IN << [pv |-> pv[1], c |-> [n |-> n, ops |-> SubSeq(ops, 1, k)]] >>
          \o Runs(SubSeq(ops, k+1, Len(ops)), SubSeq(pv, k+1, Len(pv)), n)
\* numeric circuit: every parameter constant
Ground(c) == \A i \in 1..Len(c.ops) : \A j \in 1..Len(c.ops[i].g.p) : c.ops[i].g.p[j].t = <<>>
NumOps(c) == TLCEval([i \in 1..Len(c.ops) |->
    [g |-> [c.ops[i].g EXCEPT !.p = [j \in 1..Len(c.ops[i].g.p) |-> c.ops[i].g.p[j].k]], q |-> c.ops[i].q]])
CUnitary(c) == Unitary(NumOps(c), c.n)
=============================================================================
