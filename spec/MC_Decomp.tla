------------------------------ MODULE MC_Decomp -----------------------------
(* Rewriting preserves the unitary up to a global phase, for every list of   *)
(* at most MaxOps operations and every list of at most MaxRules rules.       *)
EXTENDS Decomp
CONSTANTS MaxOps, MaxRules
VARIABLES ops, rules
L(p, q) == LinConst(<<p, q>>)
OpSet == { G0(n, <<>>, <<i>>) : n \in {"X", "Z", "S", "H", "I"}, i \in {0, 1} }
    \cup { G0(n, <<>>, q) : n \in {"SWAP", "CNOT", "ISWAP"}, q \in {<<0,1>>, <<1,0>>} }
    \cup { G0("U3", <<L(2,0), L(4,0), L(6,2)>>, <<1>>), G0("U3", <<L(0,2), L(-2,0), L(0,0)>>, <<0>>) }
    \cup { [g |-> GDagger(MkGate("U3", <<L(2,0), L(2,0), L(4,0)>>)), q |-> <<0>>] }
    \cup { [g |-> GControl(MkGate("X", <<>>), 1), q |-> <<0,1>>] }
    \* a controlled U3 is decomposed correctly exactly when its phase vanishes
    \cup { [g |-> GControl(MkGate("U3", <<L(2,0), L(2,2), L(-2,-2)>>), 1), q |-> <<1,0>>] }
Init == ops = <<>> /\ rules = <<>>
Next == \/ Len(ops) < MaxOps /\ rules = <<>> /\ \E o \in OpSet : ops' = Append(ops, o) /\ UNCHANGED rules
        \/ Len(ops) > 0 /\ Len(rules) < MaxRules /\ \E r \in 0..7 : rules' = Append(rules, r) /\ UNCHANGED ops
Preserves == EqUpToPhase(CUnitary([n |-> 2, ops |-> ops]), CUnitary([n |-> 2, ops |-> DecompAll(ops, rules)]))
=============================================================================
