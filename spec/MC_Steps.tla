------------------------------ MODULE MC_Steps -------------------------------
(* Workflows of one- and two-input steps in a directory, next to the same     *)
(* computation in memory: every value carries the expression it stands for.   *)
EXTENDS Steps
CONSTANTS MaxLen
VARIABLES fs, prog, n
vars == <<fs, prog, n>>
\* steps: name, number of inputs, files written
StepsAvail == << [k |-> "combine", a |-> 2, outs |-> <<"combined">>], [k |-> "build", a |-> 1, outs |-> <<"circuit">>],
                 [k |-> "random", a |-> 0, outs |-> <<"circuit">>], [k |-> "split", a |-> 1, outs |-> <<"diag", "rest">>] >>
Files == {"params", "circuit", "combined", "diag", "rest"}
\* the library: functions on numbers 0..6
Fun(k, i, vs) ==
  CASE k = "combine" -> (vs[1] + (2 * vs[2])) % 7
    [] k = "build" -> ((3 * vs[1]) + 1) % 7
    [] k = "random" -> 5
    [] k = "split" -> IF i = 1 THEN vs[1] \div 2 ELSE vs[1] % 2
\* what an expression is worth, in memory
RECURSIVE Worth(_)
Worth(x) == IF x.k = "const" THEN x.c
            ELSE Fun(x.k, x.i, [j \in 1..Len(x.args) |-> Worth(x.args[j])])
Const(c) == [k |-> "const", c |-> c, i |-> 0, args |-> <<>>]
Inputs == [file : {<<f>> : f \in Files}, v : {<<>>}] \cup [file : {<<>>}, v : {<<[e |-> Const(3), w |-> 3]>>}]
Init == fs = [f \in {"params"} |-> [e |-> Const(2), w |-> 2]] /\ prog = <<>> /\ n = 0
Do(s, ins) ==
  IF CanRun(fs, ins)
  THEN LET vs == Values(fs, ins) IN
       fs' = Ran(fs, s.outs, [i \in 1..Len(s.outs) |->
               [e |-> [k |-> s.k, c |-> 0, i |-> i, args |-> [j \in 1..s.a |-> vs[j].e]], w |-> Fun(s.k, i, [j \in 1..s.a |-> vs[j].w])]])
  ELSE fs' = fs
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \E q \in 1..Len(StepsAvail) :
             \E ins \in [1..StepsAvail[q].a -> Inputs] :
               Do(StepsAvail[q], ins) /\ prog' = <<StepsAvail[q].outs, CanRun(fs, ins)>>
\* what is in a file is what the computation in memory gives
InMemory == \A f \in DOMAIN fs : fs[f].w = Worth(fs[f].e)
\* a step writes its files and no other, and none if an input is missing
Frame == [][\A f \in DOMAIN fs' : ((f \in DOMAIN fs /\ fs'[f] = fs[f]) \/ (prog'[2] /\ \E i \in 1..Len(prog'[1]) :
                                                                                 prog'[1][i] = f))]_vars
Kept == [][DOMAIN fs \subseteq DOMAIN fs']_vars
\* the structured results
Laws == /\ \A k \in 0..2 : LET m == 2 ^ k IN
               /\ Coef(LocalZero(m), <<>>) = ROne /\ Cardinality(DOMAIN LocalZero(m)) = m + 1
               /\ FoldLeft(LAMBDA acc, t: RAdd(acc, t[2]), RZero, TermSeq(LocalZero(m))) = RZero
        /\ LET A == OneQubit(ROne, RHalf, RInt(2), RInt(-1)) B == OneQubit(RZero, ROne, RZero, ROne) IN
               Interpolated(A, B, RZero) = A /\ Interpolated(A, B, ROne) = B
               /\ Interpolated(A, B, RHalf) = OScale(RHalf, OAdd(A, B))
        /\ TwoLevel(NumOp(4)) = OConst(RInt(2))
        /\ TwoLevel(OAdd(FNum(0), FNum(1))) = OneQubit(RZero, RZero, ROne, ROne)
        /\ LET D == Collect(<< << << <<3, 1>>, <<2, 1>>, <<0, 0>>, <<1, 0>> >>, ROne>> >>) IN
               TwoLevel(OAdd(D, Adjoint("f", D))) = OneQubit(ROne, RZero, RZero, RZero)
        /\ JoinAll(<< [n |-> 2, ops |-> <<"a">>], [n |-> 3, ops |-> <<"b">>], [n |-> 1, ops |-> <<>>] >>) = [n |-> 3, ops |-> <<"a", "b">>]
        /\ JoinAll(<<>>) = [n |-> 0, ops |-> <<>>]
ASSUME Laws
=============================================================================
