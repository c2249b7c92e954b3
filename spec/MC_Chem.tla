------------------------------- MODULE MC_Chem -------------------------------
(* The formulas have the symmetries they are written for: Hubbard models are  *)
(* Hermitian, conserve particle number and spin, are invariant under          *)
(* translations of a periodic lattice and, in the symmetric form, under       *)
(* exchange of particles and holes; molecular Hamiltonians conserve the total *)
(* spin; singlet generators are anti-Hermitian and conserve the total spin,   *)
(* and one-body operators can be lifted to two-body ones at fixed number.     *)
EXTENDS Chem
CONSTANTS MaxSites
VARIABLES x, y, per, spinless, phs
vars == <<x, y, per, spinless, phs>>
Init == x = 1 /\ y = 1 /\ per = 0 /\ spinless = 1 /\ phs = 0
Next == \/ ((x + 1) * y <= MaxSites /\ x' = x + 1 /\ UNCHANGED <<y, per, spinless, phs>>)
        \/ (x * (y + 1) <= MaxSites /\ y' = y + 1 /\ UNCHANGED <<x, per, spinless, phs>>)
        \/ (per' = 1 - per /\ UNCHANGED <<x, y, spinless, phs>>)
        \/ (phs' = 1 - phs /\ UNCHANGED <<x, y, per, spinless>>)
        \/ (x * y <= MaxSites \div 2 /\ spinless = 1 /\ spinless' = 0 /\ UNCHANGED <<x, y, per, phs>>)
Bound == x * y <= (IF spinless = 1 THEN MaxSites ELSE MaxSites \div 2)
t == RInt(1)
u == <<3,0,0,0,2,0>>
mu == RInt(5)
h == <<1,0,0,0,4,0>>
H(m) == IF spinless = 1 THEN Spinless(x, y, t, u, m, per, phs) ELSE Spinful(x, y, t, u, m, h, per, phs)
n == IF spinless = 1 THEN x * y ELSE 2 * x * y
Herm == SameOp(H(mu), Adjoint("f", H(mu)))
Conserve == Commutes(H(mu), NumOp(n)) /\ (spinless = 0 => Commutes(H(mu), SzOp(n)))
NEdges == LET a == IF x = 1 THEN 0 ELSE IF per = 1 /\ x > 2 THEN x ELSE x - 1
              b == IF y = 1 THEN 0 ELSE IF per = 1 /\ y > 2 THEN y ELSE y - 1
          IN Cardinality(Edges(x, y, per)) = (a * y) + (b * x) /\ \A E \in Edges(x, y, per) : Cardinality(E) = 2
Spins(s) == IF spinless = 1 THEN <<s>> ELSE <<2 * s, (2 * s) + 1>>
\* shift of all sites along the rows
ShiftMap == LET to(s) == Site(x, ((s % x) + 1) % x, s \div x)
            IN FlattenSeq(TLCEval([k \in 1..(x * y) |-> Spins(to(k - 1))]))
Translate == per = 1 => SameOp(Relabel(H(mu), ShiftMap), H(mu))
\* exchange particles and holes with a sign on every other site (bipartite lattices)
Bipartite == (per = 0) \/ ((x % 2 = 0 \/ x = 1) /\ (y % 2 = 0 \/ y = 1))
SiteOf(m) == IF spinless = 1 THEN m ELSE m \div 2
Odd(m) == LET s == SiteOf(m) IN ((s % x) + (s \div x)) % 2 = 1
PH(A) == LET s == TermSeq(A) IN Collect(TLCEval([i \in 1..Len(s) |-> LET f == s[i][1] IN
   << [j \in 1..Len(f) |-> <<f[j][1], 1 - f[j][2]>>],
      IF Cardinality({j \in 1..Len(f) : Odd(f[j][1])}) % 2 = 1 THEN RNeg(s[i][2]) ELSE s[i][2] >>]))
Hsym == IF spinless = 1 THEN Spinless(x, y, t, u, RZero, per, 1) ELSE Spinful(x, y, t, u, RZero, RZero, per, 1)
ParticleHole == Bipartite => SameOp(PH(Hsym), Hsym)
\* the spinful model conserves the total spin without a magnetic field
TotalSpin == spinless = 0 => Commutes(Spinful(x, y, t, u, mu, RZero, per, phs), SPlus(x * y))
Sound == Bound => (Herm /\ Conserve /\ NEdges /\ Translate /\ ParticleHole /\ TotalSpin)
\* ---- generators, integrals -----------------------------------------------------------
Ts(k) == [i \in 1..k |-> IF i % 2 = 0 THEN RInt(i) ELSE <<i,0,0,0,2,0>>]
ASSUME \A q \in {<<2, 1>>, <<4, 2>>, <<4, 1>>, <<6, 2>>, <<6, 4>>} :
   LET G == Singlet(Ts(NParams(q[1], q[2])), q[1], q[2], 1) IN
   /\ SameOp(Adjoint("f", G), ONeg(G))
   /\ Commutes(G, NumOp(q[1])) /\ Commutes(G, SzOp(q[1]))
   /\ (q[1] <= 4 => Commutes(G, SPlus(q[1] \div 2)))
   /\ NParams(q[1], q[2]) = Len(PairsVO(q[1], q[2])) * 2 + Len(PairsOf(Len(PairsVO(q[1], q[2]))))
g1 == Collect(<< <<<<0,0,0,0>>, RInt(3)>>, <<<<0,1,1,0>>, RInt(2)>>, <<<<1,0,0,1>>, RInt(2)>>, <<<<0,1,0,1>>, ROne>>, <<<<1,0,1,0>>, ROne>>,
                 <<<<0,0,1,1>>, ROne>>, <<<<1,1,0,0>>, ROne>>, <<<<1,1,1,1>>, RInt(4)>> >>)
h1 == Collect(<< <<<<0,0>>, RInt(-3)>>, <<<<0,1>>, Half>>, <<<<1,0>>, Half>>, <<<<1,1>>, RInt(-1)>> >>)
M1 == MolHam(RInt(7), h1, g1)
ASSUME Sym8(g1) /\ SameOp(M1, Adjoint("f", M1)) /\ Commutes(M1, NumOp(4)) /\ Commutes(M1, SPlus(2)) /\ Interaction(M1)
\* freezing the lowest orbital: constants and one-body terms of the textbook
ASSUME LET core == RAdd(RAdd(RInt(7), RMul(RInt(2), IEnt(h1, <<0,0>>))), IEnt(g1, <<0,0,0,0>>))
           one == RAdd(IEnt(h1, <<1,1>>), RSub(RMul(RInt(2), IEnt(g1, <<0,1,1,0>>)), IEnt(g1, <<0,1,0,1>>)))
           B == MolHam(core, Collect(<< <<<<1,1>>, one>> >>), Collect(<< <<<<1,1,1,1>>, IEnt(g1, <<1,1,1,1>>)>> >>))
       IN SameFrozen(M1, {0, 1}, {2, 3}, B)
\* lifting: a_i^ a_l (N-1) = sum_j a_i^ a_j^ a_j a_l at N particles
ASSUME \A i \in 0..2 : \A m \in 0..2 : \A N \in 2..3 :
   SameOn(Collect(<< << << <<i, 1>>, <<m, 0>> >>, RInt(N - 1)>> >>),
          Collect([j \in 1..3 |-> << << <<i, 1>>, <<j-1, 1>>, <<j-1, 0>>, <<m, 0>> >>, ROne>>]), 3, N)
=============================================================================
