------------------------------ MODULE MC_Gates ------------------------------
(* Exhaustive check of the gate algebra: every catalogue gate, a set of      *)
(* parameters, every wrapper word up to MaxW.                                *)
EXTENDS QGates
CONSTANTS MaxW, Angles, AnglesH
AnglesV == {<<0,0>>, <<1,0>>, <<-2,0>>, <<1,1>>}
AnglesHV == {<<0,0>>, <<2,0>>, <<-4,0>>, <<2,2>>}
Names == {"X","Y","Z","H","I","S","T","RX","RY","RZ","RH","PHASE","U3","CNOT","CZ","SWAP","ISWAP",
          "CPHASE","XX","YY","ZZ","XY","cg_phase2","cg_diag4","cg_perm4","cg_rot3"}
HalfGates == {"RX","RY","RZ","RH","XX","YY","ZZ","XY"}
ParamSets(g) == CASE ParamCount(g) = 0 -> {<<>>}
                  [] g \in HalfGates -> {<<a>> : a \in AnglesH}
                  [] ParamCount(g) = 1 -> {<<a>> : a \in Angles}
                  [] ParamCount(g) = 2 -> Angles \X Angles
                  [] g = "U3" -> {<<a, b, c>> : a \in AnglesH, b \in Angles, c \in Angles}
                  [] OTHER -> {<<a, b, c>> : a \in Angles, b \in Angles, c \in Angles}
VARIABLES g, w
vars == <<g, w>>
Init == /\ w = <<>> /\ \E nm \in Names : \E ps \in ParamSets(nm) : g = MkGate(nm, ps)
DoDagger == Len(w) < MaxW /\ g' = GDagger(g) /\ w' = Append(w, 0)
DoControl == Len(w) < MaxW /\ GArity(g) < 4 /\ \E k \in 1..2 : GArity(g) + k <= 4 /\ g' = GControl(g, k) /\ w' = Append(w, k)
Next == DoDagger \/ DoControl
\* the matrix obtained by literally applying the wrappers one by one
RawMat == FoldLeft(LAMBDA M, x: IF x = 0 THEN Adj(M) ELSE CtrlM(M, x), BaseMat(g.n, g.p), w)
WordMat == GMat(g) = RawMat
IsUnitary == MMul(GMat(g), Adj(GMat(g))) = IdM(Pow2(GArity(g)))
DaggerInvolution == GDagger(GDagger(g)) = g
DaggerAdjoint == GMat(GDagger(g)) = Adj(GMat(g))
Commute == \A k \in 1..2 : GDagger(GControl(g, k)) = GControl(GDagger(g), k)
CtrlAdd == GControl(GControl(g, 1), 2) = GControl(g, 3)
HermitianRight == (ParamCount(g.n) = 0 /\ g.n # "cg_sy") => ((Adj(BaseMat(g.n, <<>>)) = BaseMat(g.n, <<>>)) <=> g.n \in HermitianGates)
\* one-parameter groups
Additive == (w = <<>> /\ g.n \in HalfGates \cup {"PHASE","CPHASE"}) =>
   \A b \in (IF g.n \in HalfGates THEN AnglesH ELSE Angles) :
      MMul(BaseMat(g.n, g.p), BaseMat(g.n, <<b>>)) = BaseMat(g.n, <<AngAdd(g.p[1], b)>>)
=============================================================================
