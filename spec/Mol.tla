--------------------------------- MODULE Mol ---------------------------------
(* Molecules in memory and in files.  A molecule has fields read together     *)
(* (metadata, energies) and arrays read one by one when first asked for.      *)
(* Values are tokens; 0 stands for a value that is not there.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Scalars == {"n_orbitals", "n_qubits", "nuclear_repulsion", "hf_energy", "orbital_energies", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy", "general_calculations"}
Lazies == {"canonical_orbitals", "overlap_integrals", "one_body_integrals", "two_body_integrals", "cisd_one_rdm", "cisd_two_rdm", "fci_one_rdm", "fci_two_rdm", "ccsd_single_amps", "ccsd_double_amps"}
\* an object: [file, meta, sc : Scalars -> token, lz : Lazies -> token]; a file: [meta, sc, lz]
NewObj(f, m, NoCalc) == [file |-> f, meta |-> m, sc |-> [x \in Scalars |-> IF x = "general_calculations" THEN NoCalc ELSE 0], lz |-> [x \in Lazies |-> 0]]
\* a state: [heap : sequence of objects, ref : registers, files : function from names]
Obj(s, r) == s.heap[s.ref[r]]
Push(s, o) == [s EXCEPT !.heap = Append(@, o), !.ref = Append(@, Len(s.heap) + 1)]
HasFile(s, f) == f \in DOMAIN s.files
Stored(s, f, x) == IF HasFile(s, f) THEN s.files[f].lz[x] ELSE 0
Value(s, o, x) == IF o.lz[x] # 0 THEN o.lz[x] ELSE Stored(s, o.file, x)
\* reading an array remembers it
Read(s, r, x) == [s EXCEPT !.heap[s.ref[r]].lz[x] = Value(s, Obj(s, r), x)]
ReadAll(s, r) == [s EXCEPT !.heap[s.ref[r]].lz = [x \in Lazies |-> Value(s, Obj(s, r), x)]]
Content(o) == [meta |-> o.meta, sc |-> o.sc, lz |-> o.lz]
Save(s, r) == LET t == ReadAll(s, r) o == Obj(t, r) IN [t EXCEPT !.files = (o.file :> Content(o)) @@ t.files]
Open(s, f) == Push(s, [file |-> f, meta |-> s.files[f].meta, sc |-> s.files[f].sc, lz |-> [x \in Lazies |-> 0]])
Load(s, r) == LET f == Obj(s, r).file IN [s EXCEPT !.heap[s.ref[r]].meta = s.files[f].meta, !.heap[s.ref[r]].sc = s.files[f].sc]
SetSc(s, r, x, v) == [s EXCEPT !.heap[s.ref[r]].sc[x] = v]
SetLz(s, r, x, v) == [s EXCEPT !.heap[s.ref[r]].lz[x] = v]
Del(s, f) == [s EXCEPT !.files = [g \in DOMAIN s.files \ {f} |-> s.files[g]]]
\* ---- metadata of a molecule, from its atoms ------------------------------------------
Elements == <<"H","He","Li","Be","B","C","N","O","F","Ne","Na","Mg","Al","Si","P","S","Cl","Ar","K","Ca","Sc","Ti","V","Cr","Mn","Fe","Co","Ni","Cu","Zn","Ga","Ge","As","Se","Br","Kr">>
Protons(a) == CHOOSE z \in 1..Len(Elements) : Elements[z] = a
Sorted(atoms) == SortSeq(atoms, LAMBDA a, b: Protons(a) < Protons(b))
Charges(atoms) == LET q == Sorted(atoms) IN [i \in 1..Len(q) |-> Protons(q[i])]
RECURSIVE ISum(_)
ISum(q) == IF q = <<>> THEN 0 ELSE Head(q) + ISum(Tail(q))
Electrons(atoms, charge) == ISum(Charges(atoms)) - charge
Multiplet == <<"singlet","doublet","triplet","quartet","quintet","sextet","septet","octet","nonet","dectet","undectet","duodectet">>
Count(atoms, a) == Len(SelectSeq(atoms, LAMBDA x: x = a))
RECURSIVE Join(_, _)
Join(q, sep) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Formula(atoms) == LET kinds == Sorted(SetToSeq({atoms[i] : i \in 1..Len(atoms)})) IN
                  Join([i \in 1..Len(kinds) |-> kinds[i] \o ToString(Count(atoms, kinds[i]))], "-")
Name(first, basis, mult, charge, desc) ==
  first \o "_" \o basis \o "_" \o Multiplet[mult]
  \o (IF charge > 0 THEN "_" \o ToString(charge) \o "+" ELSE IF charge < 0 THEN "_" \o ToString(charge) \o "-" ELSE "")
  \o (IF desc = "" THEN "" ELSE "_" \o desc)
Alpha(ne, mult) == (ne + mult - 1) \div 2
Beta(ne, mult) == (ne - (mult - 1)) \div 2
=============================================================================
