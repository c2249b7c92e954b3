------------------------------ MODULE MC_Circ -------------------------------
(* The circuit-building state machine explored exhaustively on a small       *)
(* register, with the laws the design must satisfy; every complete behaviour *)
(* is emitted for replay through the real code.                              *)
EXTENDS Circ, Json
CONSTANTS NQ, MaxLen, Emit
VARIABLES c, hist
vars == <<c, hist>>
L(k) == LinConst(k)
S(s) == LinSym(s)
Gates1 == { [n |-> "H", p |-> <<>>], [n |-> "T", p |-> <<>>], [n |-> "RY", p |-> <<L(<<2,2>>)>>],
            [n |-> "RX", p |-> <<LinScale(2, S(1))>>],
            [n |-> "RZ", p |-> <<LinAdd(LinScale(2, S(2)), LinScale(-2, S(1)))>>] }
Gates2 == { [n |-> "CNOT", p |-> <<>>], [n |-> "ISWAP", p |-> <<>>], [n |-> "XX", p |-> <<LinScale(2, S(2))>>] }
G(b) == MkGate(b.n, b.p)
OpSet == {[g |-> G(b), q |-> <<i>>] : b \in Gates1, i \in 0..NQ-1}
     \cup {[g |-> G(b), q |-> <<i, j>>] : b \in Gates2, i \in 0..NQ-1, j \in 0..NQ-1}
Ops == {o \in OpSet : Len(o.q) = 1 \/ o.q[1] # o.q[2]}
       \cup {[g |-> GControl(GDagger(G([n |-> "T", p |-> <<>>])), 1), q |-> <<NQ-1, 0>>]}
Init == c = MkCirc(<<>>, 0) /\ hist = <<>>
Add == Len(c.ops) < MaxLen /\ \E o \in Ops : c' = AppendOp(c, o) /\ hist' = Append(hist, <<"add", o>>)
Next == Add
M1 == << <<1, L(<<1,1>>)>>, <<2, L(<<-3,0>>)>> >>
Part1 == << <<1, L(<<1,1>>)>> >>
Part2 == << <<2, L(<<-3,0>>)>> >>
Swap == << <<1, S(2)>>, <<2, S(1)>> >>
B == BindC(c, M1)
Inv(cc) == [cc EXCEPT !.ops = TLCEval([i \in 1..Len(cc.ops) |->
              [cc.ops[Len(cc.ops)+1-i] EXCEPT !.g = GDagger(cc.ops[Len(cc.ops)+1-i].g)]])]
\* embedding defined a second way, entrywise
Embed(M, qs, n) == TLCEval([ii \in 1..Pow2(n) |-> [jj \in 1..Pow2(n) |->
   LET i == ii-1  j == jj-1 IN
   IF \A q \in 0..n-1 : (\E x \in 1..Len(qs) : qs[x] = q) \/ Bit(i,q,n) = Bit(j,q,n)
   THEN M[SubIdx(i,qs,n)+1][SubIdx(j,qs,n)+1] ELSE RZero]])
BindClosed == Ground(B)
BindTwice == BindC(BindC(c, Part1), Part2) = B /\ BindC(BindC(c, Part2), Part1) = B
SwapSwap == BindC(BindC(c, Swap), Swap) = c
BindKeepsN == B.n = c.n
FreeOK == /\ {FreeSyms(c)[i] : i \in 1..Len(FreeSyms(c))} = UNION {{s \in 1..2 : \E j \in 1..Len(c.ops[i].g.p) : CoefOf(c.ops[i].g.p[j], s) # 0} : i \in 1..Len(c.ops)}
          /\ Len(FreeSyms(B)) = 0
ProductLaw == Len(c.ops) = 0 \/
   CUnitary(B) = FoldLeft(LAMBDA acc, o: MMul(Embed(GMat(o.g), o.q, B.n), acc), IdM(Pow2(B.n)), NumOps(B))
InverseLaw == c.n > 0 => CUnitary(Concat(B, Inv(B))) = IdM(Pow2(B.n))
RunsLaw == LET pv == [i \in 1..Len(c.ops) |-> Len(c.ops[i].q) = 1]
               r == Runs(c.ops, pv, c.n)
           IN /\ FoldLeft(LAMBDA acc, x: acc \o x.c.ops, <<>>, r) = c.ops
              /\ \A i \in 1..Len(r)-1 : r[i].pv # r[i+1].pv
EmitInv == (Emit /\ Len(c.ops) = MaxLen) => PrintT("GEN:" \o ToJson([i \in 1..Len(hist) |-> hist[i][2]]))
=============================================================================
