-------------------------------- MODULE Ferm --------------------------------
(* Fermionic operators: normal form under the canonical anticommutation       *)
(* relations, action on occupation states, maps to Pauli operators.           *)
EXTENDS OpAlg
Before(x, y) == x[2] > y[2] \/ (x[2] = y[2] /\ x[1] > y[1])    \* creations first, then high to low
IsNormalTerm(f) == \A i \in 1..(Len(f)-1) : Before(f[i], f[i+1])
IsNormal(A) == \A t \in DOMAIN A : IsNormalTerm(t)
Swap(f, i) == [j \in 1..Len(f) |-> IF j = i THEN f[i+1] ELSE IF j = i+1 THEN f[i] ELSE f[j]]
Cut(f, i) == [j \in 1..(Len(f)-2) |-> IF j < i THEN f[j] ELSE f[j+2]]
\* normal form of a single term: sequence of <<term, sign>>
RECURSIVE NormTerm(_, _)
NormTerm(f, s) ==
  LET bad == {i \in 1..(Len(f)-1) : ~Before(f[i], f[i+1])} IN
  IF bad = {} THEN << <<f, s>> >>
  ELSE LET i == Min(bad) IN
       IF f[i] = f[i+1] THEN <<>>
       ELSE IF f[i][1] = f[i+1][1] THEN NormTerm(Cut(f, i), s) \o NormTerm(Swap(f, i), -s)   \* a a^ = 1 - a^ a
       ELSE NormTerm(Swap(f, i), -s)
NormalForm(A) ==
  LET s == TermSeq(A)
  IN Collect(FlattenSeq(TLCEval([i \in 1..Len(s) |-> LET n == NormTerm(s[i][1], 1) IN
       TLCEval([j \in 1..Len(n) |-> <<n[j][1], IF n[j][2] = 1 THEN s[i][2] ELSE RNeg(s[i][2])>>])])))
SameOp(A, B) == NormalForm(A) = NormalForm(B)
FComm(A, B) == OSub(OMul("f", A, B), OMul("f", B, A))
FAnti(A, B) == OAdd(OMul("f", A, B), OMul("f", B, A))
\* ---- conservation ----------------------------------------------------------------
Charge(f) == FoldLeft(LAMBDA acc, x: acc + (IF x[2] = 1 THEN 1 ELSE -1), 0, f)
SpinCharge(f) == FoldLeft(LAMBDA acc, x: acc + (IF (x[1] + x[2]) % 2 = 0 THEN 1 ELSE -1), 0, f)
TwoBody(A, spin) == \A t \in DOMAIN A : Len(t) \in {0, 2, 4} /\ Charge(t) = 0 /\ (spin = 1 => SpinCharge(t) = 0)
Relabel(A, m) == LET s == TermSeq(A) IN Collect(TLCEval([i \in 1..Len(s) |-> <<[j \in 1..Len(s[i][1]) |-> <<m[s[i][1][j][1] + 1], s[i][1][j][2]>>], s[i][2]>>]))
\* ---- action on occupation states: a set of occupied modes, or nothing ----------------
ActOne(x, st) ==      \* st = <<sign, set>> or <<0, {}>>
  IF st[1] = 0 THEN st
  ELSE IF (x[2] = 1) = (x[1] \in st[2]) THEN <<0, {}>>
  ELSE LET k == Cardinality({m \in st[2] : m < x[1]}) IN
       <<IF k % 2 = 0 THEN st[1] ELSE -st[1], IF x[2] = 1 THEN st[2] \cup {x[1]} ELSE st[2] \ {x[1]}>>
ActTerm(f, occ) == FoldRight(LAMBDA x, acc: ActOne(x, acc), f, <<1, occ>>)
\* matrix element <out| A |in>
Elem(A, out, in) == LET s == TermSeq(A) IN
  FoldLeft(LAMBDA acc, x: LET r == ActTerm(x[1], in) IN
    IF r[1] # 0 /\ r[2] = out THEN RAdd(acc, IF r[1] = 1 THEN x[2] ELSE RNeg(x[2])) ELSE acc, RZero, s)
\* ---- Jordan-Wigner --------------------------------------------------------------------
JWLadder(x) ==
  LET zs == [i \in 1..x[1] |-> <<i-1, "Z">>]
  IN Collect(<< <<Append(zs, <<x[1], "X">>), RHalf>>,
                <<Append(zs, <<x[1], "Y">>), RMul(RHalf, IF x[2] = 1 THEN RNeg(RI) ELSE RI)>> >>)
\* the algebra map given by images of the ladder operators
HomTerm(Img(_), f, c) == FoldLeft(LAMBDA acc, x: OMul("q", acc, Img(x)), OConst(c), f)
Hom(Img(_), A) == LET s == TermSeq(A)
                      parts == TLCEval([i \in 1..Len(s) |-> TermSeq(HomTerm(Img, s[i][1], s[i][2]))])
                  IN Collect(FlattenSeq(parts))
JW(A) == Hom(JWLadder, A)
\* images that make up a fermion-to-qubit transform: img[m+1] = image of a_m^ ;
\* the canonical anticommutation relations, number operators with eigenvalues 0, 1
QAnti(A, B) == OAdd(OMul("q", A, B), OMul("q", B, A))
QComm(A, B) == OSub(OMul("q", A, B), OMul("q", B, A))
CAR(img) ==
  \A p, q \in 1..Len(img) :
     /\ QAnti(img[p], img[q]) = OZero
     /\ QAnti(Adjoint("q", img[p]), img[q]) = (IF p = q THEN OOne ELSE OZero)
ImgOf(img, x) == IF x[2] = 1 THEN img[x[1] + 1] ELSE Adjoint("q", img[x[1] + 1])
\* ---- the reverse transform ---------------------------------------------------------------
FNum(j) == Collect(<< << <<<<j, 1>>, <<j, 0>>>>, ROne>> >>)
FZ(j) == OSub(OOne, OScale(RInt(2), FNum(j)))
FLad(j, r) == Collect(<< << <<<<j, r>>>>, ROne>> >>)
RevFactor(x) ==
  IF x[2] = "Z" THEN FZ(x[1])
  ELSE LET core == IF x[2] = "X" THEN OAdd(FLad(x[1], 1), FLad(x[1], 0)) ELSE OScale(RI, OSub(FLad(x[1], 1), FLad(x[1], 0)))
       IN FoldLeft(LAMBDA acc, j: NormalForm(OMul("f", acc, FZ(j-1))), core, [j \in 1..x[1] |-> j])
RevJW(A) == LET s == TermSeq(A) IN
  Collect(FlattenSeq(TLCEval([i \in 1..Len(s) |->
    TermSeq(FoldLeft(LAMBDA acc, x: NormalForm(OMul("f", acc, RevFactor(x))), OConst(s[i][2]), s[i][1]))])))
\* ---- interaction operators: constant, h[p,q] p^ q, v[p,q,r,s] p^ q^ r s ------------------------
IntOp(c, h, v) ==
  Collect(<< <<<<>>, c>> >>
    \o TLCEval([i \in 1..Len(h) |-> << <<<<h[i][1][1], 1>>, <<h[i][1][2], 0>>>>, h[i][2]>>])
    \o TLCEval([i \in 1..Len(v) |-> << <<<<v[i][1][1], 1>>, <<v[i][1][2], 1>>, <<v[i][1][3], 0>>, <<v[i][1][4], 0>>>>, v[i][2]>>]))
=============================================================================
