-------------------------------- MODULE Steps --------------------------------
(* A workflow is a directory and steps run in it one after another.  The      *)
(* directory is a function from file names to values; a step reads the files  *)
(* it is given by name (and nothing else), and writes its fixed output files. *)
EXTENDS Chem
NoFile == [n \in {} |-> 0]
Write(fs, n, v) == [m \in DOMAIN fs \cup {n} |-> IF m = n THEN v ELSE fs[m]]
WriteAll(fs, ws) == FoldLeft(LAMBDA acc, w: Write(acc, w.f, w.v), fs, ws)
\* an input: [file |-> <<name>>, v |-> <<>>] or [file |-> <<>>, v |-> <<value>>]
Readable(fs, i) == i.file = <<>> \/ i.file[1] \in DOMAIN fs
CanRun(fs, ins) == \A k \in 1..Len(ins) : Readable(fs, ins[k])
Value(fs, i) == IF i.file = <<>> THEN i.v[1] ELSE fs[i.file[1]]
Values(fs, ins) == TLCEval([k \in 1..Len(ins) |-> Value(fs, ins[k])])
\* a step that yields the values vs in the files outs
Ran(fs, outs, vs) == WriteAll(fs, [k \in 1..Len(outs) |-> [f |-> outs[k], v |-> vs[k]]])
\* ---- what the steps that do more than call the library compute ----------------------------------
JoinAll(cs) == [n |-> Max({0} \cup {cs[i].n : i \in 1..Len(cs)}), ops |-> FlattenSeq([i \in 1..Len(cs) |-> cs[i].ops])]
QTerm(P) == << <<0, P>> >>
\* 1 - (1/n) sum of Z_i : zero exactly on the state of all zeros; n a power of two with exponent k
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
LocalZero(n) == Collect(<< <<<<>>, ROne>> >> \o [i \in 1..n |-> << << <<i - 1, "Z">> >>, RNeg(RNorm(<<1, 0, 0, 0, 2 * Log2(n), 0>>))>>])
OneQubit(x, y, z, c) == Collect(<< <<QTerm("X"), x>>, <<QTerm("Y"), y>>, <<QTerm("Z"), z>>, <<<<>>, c>> >>)
Interpolated(A, B, e) == OAdd(OScale(e, B), OScale(RSub(ROne, e), A))
\* the Hamiltonian between the states with modes 0,1 and with modes 2,3 filled, in Paulis
TwoLevel(H) ==
  LET a == Elem(H, {0, 1}, {0, 1}) b == Elem(H, {2, 3}, {2, 3}) c == Elem(H, {2, 3}, {0, 1}) d == RConj(c) IN
  OneQubit(RMul(RHalf, RAdd(c, d)), RMul(RHalf, RMul(RI, RSub(d, c))), RMul(RHalf, RSub(a, b)), RMul(RHalf, RAdd(a, b)))
=============================================================================
