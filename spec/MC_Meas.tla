------------------------------ MODULE MC_Meas --------------------------------
(* Every history of additions, saves and reads of a measurement set of two   *)
(* qubits; estimator identities hold in every state.                         *)
EXTENDS Meas, Json
CONSTANTS NQ, MaxLen, MaxSteps
VARIABLES m, file, hist
vars == <<m, file, hist>>
Outs == [1..NQ -> {0, 1}]
Init == m = <<>> /\ file = <<"none">> /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
Add == \E x \in Outs, y \in Outs, a \in 1..2, b \in 0..1 :
         /\ x # y /\ Len(m) + a + b <= MaxLen
         /\ LET c == <<<<x, a>>, <<y, b>>>> IN m' = AddCounts(m, c) /\ Log([op |-> "add", c |-> c])
         /\ UNCHANGED file
Save == file' = <<"f", m>> /\ UNCHANGED m /\ Log([op |-> "save"])
Load == file[1] = "f" /\ m' = file[2] /\ UNCHANGED file /\ Log([op |-> "load"])
Next == Len(hist) < MaxSteps /\ (Add \/ Save \/ Load)
Terms == {[f |-> f, c |-> c] : f \in {<<>>, <<0>>, <<1>>, <<0,1>>}, c \in {4, -2}}
CountsTotal == SumF(LAMBDA x: Counts(m)[x], Range(m)) = Len(m)
Rebuild == LET s == SetToSeq(Range(m)) IN SameBag(AddCounts(<<>>, [i \in 1..Len(s) |-> <<s[i], Counts(m)[s[i]]>>]), m)
ASSUME \A x, y \in Outs : IntOf(x) = IntOf(y) => x = y
ParitySplit == \A t \in Terms : LET e == Even(m, t.f) IN (2*e) - Len(m) = SumSgn(m, t.f)
\* covariance matrices are positive: diagonals non-negative, 2x2 minors non-negative, and zero for a single outcome
CovPSD == \A t, u \in Terms :
   LET a == CovNum(m, t, t)  b == CovNum(m, u, u)  c == CovNum(m, t, u) IN
   a >= 0 /\ (Len(m) <= 4 => a*b >= c*c) /\ (Len(m) = 1 => c = 0)
CorrIsEvOfProduct == \A t, u \in Terms : Corr(m, t, u) = Ev(m, [f |-> QSymDiff(t.f, u.f), c |-> t.c * u.c])
LinearEv == \A t \in Terms : Ev(m, [t EXCEPT !.c = 3 * @]) = 3 * Ev(m, t)
SaveLossless == file[1] = "f" /\ hist # <<>> /\ Last(hist).op \in {"save", "load"} => file[2] = m
EmitInv == Len(hist) = MaxSteps => PrintT("GEN:" \o ToJson(hist))
=============================================================================
