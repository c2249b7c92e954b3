------------------------------- MODULE Decomp -------------------------------
(* Rewriting circuits by an ordered list of rules.  Rule 0 is the library's   *)
(* U3 rule; rules 1..7 are rules the conformance driver defines.              *)
EXTENDS Circ
Plain(op, n) == op.g.n = n /\ ~op.g.d /\ op.g.c = 0
G0(n, ps, q) == [g |-> MkGate(n, ps), q |-> q]
RuleName(r) == CASE r = 0 -> "U3" [] r = 1 -> "X" [] r = 2 -> "Z" [] r = 3 -> "S" [] r = 4 -> "H"
                 [] r = 5 -> "SWAP" [] r = 6 -> "CNOT" [] r = 7 -> "I"
Applies(r, op) == IF r = 0 THEN op.g.n = "U3" /\ ~op.g.d ELSE Plain(op, RuleName(r))
Prod(r, op) ==
  LET a == <<op.q[1]>> IN
  CASE r = 0 -> LET p == op.g.p
                    R(n, x) == [g |-> [n |-> n, p |-> <<x>>, d |-> FALSE, c |-> op.g.c], q |-> op.q]
                IN <<R("RZ", p[3]), R("RY", p[1]), R("RZ", p[2])>>
    [] r = 1 -> <<G0("H", <<>>, a), G0("Z", <<>>, a), G0("H", <<>>, a)>>
    [] r = 2 -> <<G0("S", <<>>, a), G0("S", <<>>, a)>>
    [] r = 3 -> <<G0("T", <<>>, a), G0("T", <<>>, a)>>
    [] r = 4 -> <<G0("RY", <<LinConst(<<2,0>>)>>, a), G0("X", <<>>, a)>>
    [] r = 5 -> LET b == <<op.q[2], op.q[1]>> IN <<G0("CNOT", <<>>, op.q), G0("CNOT", <<>>, b), G0("CNOT", <<>>, op.q)>>
    [] r = 6 -> LET b == <<op.q[2]>> IN <<G0("H", <<>>, b), G0("CZ", <<>>, op.q), G0("H", <<>>, b)>>
    [] r = 7 -> <<>>
RECURSIVE DecompOp(_, _)
DecompOp(op, rules) ==
  IF rules = <<>> THEN <<op>>
  ELSE LET new == IF Applies(Head(rules), op) THEN Prod(Head(rules), op) ELSE <<op>>
       IN FoldLeft(LAMBDA acc, o: acc \o DecompOp(o, Tail(rules)), <<>>, new)
DecompAll(ops, rules) == FoldLeft(LAMBDA acc, o: acc \o DecompOp(o, rules), <<>>, ops)
=============================================================================
