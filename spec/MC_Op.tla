-------------------------------- MODULE MC_Op -------------------------------
(* Programs over operator objects: registers refer to objects on a heap;      *)
(* in-place operations change the object (seen by every alias), the others    *)
(* make a new one.  Each object carries the matrix obtained by matrix         *)
(* arithmetic alone; the symbolic content must always denote that matrix.     *)
EXTENDS OpAlg, Pauli, Json
CONSTANTS Depth, Kinds, EmitGen
VARIABLES ref, heap, mats, prog, done
vars == <<ref, heap, mats, prog, done>>
N == 2
Half == <<1,0,0,0,2,0>>
Lib(k) == IF k = "q"
  THEN << << [c |-> ROne, f |-> <<<<0,"X">>>>] >>,
          << [c |-> RGauss(0, 1), f |-> <<<<1,"Y">>, <<0,"Z">>>>], [c |-> Half, f |-> <<>>] >>,
          << [c |-> RInt(2), f |-> <<<<0,"X">>, <<1,"Z">>, <<0,"Y">>>>], [c |-> RInt(-1), f |-> <<<<1,"Z">>>>] >> >>
  ELSE << << [c |-> ROne, f |-> <<<<0,"Z">>>>], [c |-> ROne, f |-> <<>>] >>,
          << [c |-> Half, f |-> <<<<1,"Z">>, <<0,"Z">>>>], [c |-> ROne, f |-> <<<<0,"Z">>, <<0,"Z">>, <<1,"Z">>>>] >> >>
Den(A) == LET s == TermSeq(A) IN OpMat(TLCEval([i \in 1..Len(s) |-> [c |-> s[i][2], f |-> s[i][1]]]), N)
RawDen(ts) ==   \* product of the factors' matrices in the order written
  LET n4 == Pow2(N)
      cols == TLCEval([j \in 1..n4 |-> FoldLeft(LAMBDA acc, t: VAdd(acc, VScale(t.c, PauliApply([i \in 1..Len(t.f) |-> t.f[Len(t.f) + 1 - i]], N, Basis(N, j-1)))), VZero(N), ts)])
  IN TLCEval([i \in 1..n4 |-> [j \in 1..n4 |-> cols[j][i]]])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> RAdd(A[i][j], B[i][j])]])
MNeg(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> RNeg(A[i][j])]])
Kind == heap[1].k
Obj(r) == heap[ref[r]]
NewObj(v, m, p) == heap' = Append(heap, [k |-> Kind, v |-> v]) /\ mats' = Append(mats, m) /\ ref' = Append(ref, Len(heap) + 1) /\ prog' = Append(prog, p)
Change(r, v, m, p) == heap' = [heap EXCEPT ![ref[r]].v = v] /\ mats' = [mats EXCEPT ![ref[r]] = m] /\ ref' = ref /\ prog' = Append(prog, p)
Res(o, a, b) == CASE o = "add" -> OAdd(a, b) [] o = "sub" -> OSub(a, b) [] o = "mul" -> OMul(Kind, a, b)
MRes(o, a, b) == CASE o = "add" -> MAdd(a, b) [] o = "sub" -> MAdd(a, MNeg(b)) [] o = "mul" -> MMul(a, b)
Init == \E k \in Kinds : \E i \in 1..Len(Lib(k)) :
          LET v == OFromTerms(k, Lib(k)[i]) IN
          /\ heap = << [k |-> k, v |-> v] >> /\ mats = << RawDen(Lib(k)[i]) >> /\ ref = <<1>>
          /\ prog = << <<"new", i, IF k = "q" THEN 0 ELSE 1, 0>> >> /\ done = FALSE
Go == Len(prog) < Depth /\ UNCHANGED done
New == Go /\ Len(ref) < 2 /\ \E i \in 1..Len(Lib(Kind)) : NewObj(OFromTerms(Kind, Lib(Kind)[i]), RawDen(Lib(Kind)[i]), <<"new", i, IF Kind = "q" THEN 0 ELSE 1, 0>>)
Alias == Go /\ Len(ref) < 3 /\ \E r \in 1..Len(ref) : ref' = Append(ref, ref[r]) /\ UNCHANGED <<heap, mats>> /\ prog' = Append(prog, <<"alias", r, 0, 0>>)
Bin == Go /\ \E o \in {"add", "sub", "mul"}, r, q \in 1..Len(ref) :
         \/ Change(r, Res(o, Obj(r).v, Obj(q).v), MRes(o, mats[ref[r]], mats[ref[q]]), <<o, r, q, 1>>)
         \/ Len(ref) < 3 /\ NewObj(Res(o, Obj(r).v, Obj(q).v), MRes(o, mats[ref[r]], mats[ref[q]]), <<o, r, q, 0>>)
Scal == Go /\ \E r \in 1..Len(ref) : Change(r, OScale(RGauss(0, 1), Obj(r).v), MScale(RGauss(0, 1), mats[ref[r]]), <<"scale", r, 0, 1>>)
Emit == EmitGen /\ ~done /\ Len(prog) = Depth /\ PrintT("GEN:" \o ToJson(prog)) /\ done' = TRUE /\ UNCHANGED <<ref, heap, mats, prog>>
Next == New \/ Alias \/ Bin \/ Scal \/ Emit
Faithful == \A i \in 1..Len(heap) : Den(heap[i].v) = mats[i]
Simple == \A i \in 1..Len(heap) : \A t \in DOMAIN heap[i].v : IsSimple(Kind, t) /\ heap[i].v[t] # RZero
\* terms are independent: an operator is determined by its matrix (traces against the terms)
Trace(M) == FoldLeft(LAMBDA acc, i: RAdd(acc, M[i][i]), RZero, [i \in 1..Len(M) |-> i])
PStr == {t \in {PauliSimp(f)[2] : f \in [1..2 -> {0, 1} \X {"X", "Y", "Z"}]} : TRUE}
       \cup {<< <<q, p>> >> : q \in {0, 1}, p \in {"X", "Y", "Z"}} \cup {<<>>}
ASSUME Cardinality(PStr) = 16
ASSUME \A s, t \in PStr : LET m == MMul(Den(Collect(<< <<s, ROne>> >>)), Den(Collect(<< <<t, ROne>> >>)))
                          IN (Trace(m) # RZero) = (s = t)
\* simplification denotes the product, for all products of at most four factors on two qubits
Fac == {0, 1} \X {"X", "Y", "Z"}
ASSUME \A n \in 0..3 : \A f \in [1..n -> Fac] :
         LET s == PauliSimp(f) IN RawDen(<< [c |-> ROne, f |-> f] >>) = Den(Collect(<< <<s[2], IPow(s[1])>> >>))
=============================================================================
