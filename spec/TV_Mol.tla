-------------------------------- MODULE TV_Mol -------------------------------
(* Traces of programs over molecules and their files.  After every event the  *)
(* metadata and energies of all objects and the names of all files present    *)
(* are reported; arrays are read by events of their own.                      *)
EXTENDS TraceLib, Mol
VARIABLES sid, l, st
\* what metadata a molecule has by its definition
Meta(m) == [geo |-> m.geo, atoms |-> Sorted(m.atoms), protons |-> Charges(m.atoms), na |-> Len(m.atoms),
            basis |-> m.basis, mult |-> m.mult, charge |-> m.charge, desc |-> m.desc,
            name |-> Name(IF m.txt # "" THEN m.txt ELSE Formula(m.atoms), m.basis, m.mult, m.charge, m.desc),
            ne |-> IF m.txt # "" THEN 0 ELSE Electrons(m.atoms, m.charge)]
Present(s) == UNION {{f} : f \in DOMAIN s.files}
RegBad(s, e) ==
  IF Len(e.regs) # Len(s.ref) THEN "number of objects"
  ELSE IF \E i \in 1..Len(e.regs) : e.regs[i].file # Obj(s, i).file THEN "file name"
  ELSE IF \E i \in 1..Len(e.regs) : e.regs[i].meta # Obj(s, i).meta THEN "metadata"
  ELSE IF \E i \in 1..Len(e.regs) : \E x \in Scalars : e.regs[i].sc[x] # Obj(s, i).sc[x] THEN "values"
  ELSE IF {e.files[i] : i \in 1..Len(e.files)} # Present(s) THEN "files present"
  ELSE "ok"
Ending(e, what, s) == LET b == RegBad(s, e) IN IF b = "ok" THEN Ok(s) ELSE Rej(what \o ": " \o b, s)
Fails(e, what, s) == IF IsExc(e) THEN Ending(e, what, s) ELSE Rej(what \o ": invalid use accepted", s)
Works(e, what, s) == IF IsOk(e) THEN Ending(e, what, s) ELSE Rej(what \o ": failed", s)
Both(s, r, x, y) == Read(Read(s, r, x), r, y)
Val(s, r, x) == Value(s, Obj(s, r), x)
Step(s, e) ==
  CASE e.op = "new" ->
         IF e.m.mult \notin 1..Len(Multiplet) \/ \E i \in 1..Len(e.m.atoms) : e.m.atoms[i] \notin {Elements[z] : z \in 1..Len(Elements)}
           THEN Fails(e, "new", s)
         ELSE Works(e, "new", Push(s, NewObj(IF e.file = "" THEN Meta(e.m).name ELSE e.file, Meta(e.m), 1)))
    [] e.op = "open" -> IF HasFile(s, e.file) THEN Works(e, "open", Open(s, e.file)) ELSE Fails(e, "open", s)
    [] e.op = "load" -> IF HasFile(s, Obj(s, e.i).file) THEN Works(e, "load", Load(s, e.i)) ELSE Fails(e, "load", s)
    [] e.op = "save" -> Works(e, "save", Save(s, e.i))
    [] e.op = "del" -> Works(e, "remove", Del(s, e.file))
    [] e.op = "setsc" -> Works(e, "set " \o e.x, SetSc(s, e.i, e.x, e.v))
    [] e.op = "setlz" -> Works(e, "set " \o e.x, SetLz(s, e.i, e.x, e.v))
    [] e.op = "setmeta" -> Works(e, "set " \o e.x, [s EXCEPT !.heap[s.ref[e.i]].meta[e.x] = e.v])
    [] e.op = "get" ->
         IF ~IsOk(e) THEN Rej("read " \o e.x \o ": failed", s)
         ELSE IF e.out.v # Val(s, e.i, e.x) THEN Rej("read " \o e.x \o ": wrong value", s)
         ELSE Ending(e, "read " \o e.x, Read(s, e.i, e.x))
    [] e.op = "integrals" ->
         LET a == Val(s, e.i, "one_body_integrals") b == Val(s, e.i, "two_body_integrals") t == Both(s, e.i, "one_body_integrals", "two_body_integrals") IN
         IF a = 0 \/ b = 0 THEN (IF IsExc(e) /\ e.out.e = "MissingCalculationError" THEN Ending(e, "integrals", t) ELSE Rej("integrals: missing ones accepted", s))
         ELSE IF ~IsOk(e) THEN Rej("integrals: failed", s)
         ELSE IF e.out.v # <<a, b>> THEN Rej("integrals: wrong values", s) ELSE Ending(e, "integrals", t)
    [] e.op = "missing" ->     \* Coulomb, exchange, antisymmetrized integrals need the integrals
         LET b == Val(s, e.i, "two_body_integrals") IN
         IF b = 0 THEN (IF IsExc(e) /\ e.out.e = "MissingCalculationError" THEN Ending(e, e.what, s) ELSE Rej(e.what \o ": missing integrals accepted", s))
         ELSE Works(e, e.what, Read(s, e.i, "two_body_integrals"))
    [] e.op = "rdm" ->
         LET en == IF e.fci = 1 THEN "fci_energy" ELSE "cisd_energy"
             x == IF e.fci = 1 THEN "fci_one_rdm" ELSE "cisd_one_rdm"
             y == IF e.fci = 1 THEN "fci_two_rdm" ELSE "cisd_two_rdm"
             a == Val(s, e.i, x) b == Val(s, e.i, y) IN
         IF Obj(s, e.i).sc[en] = 0 THEN (IF IsExc(e) /\ e.out.e = "MissingCalculationError" THEN Ending(e, "density matrices", s) ELSE Rej("density matrices: missing calculation accepted", s))
         ELSE IF a = 0 \/ b = 0 THEN Ending(e, "density matrices", Both(s, e.i, x, y))        \* says nothing
         ELSE IF ~IsOk(e) THEN Rej("density matrices: failed", s)
         ELSE IF e.out.v # <<a, b>> THEN Rej("density matrices: wrong values", s) ELSE Ending(e, "density matrices", Both(s, e.i, x, y))
    [] e.op = "spins" ->
         IF ~IsOk(e) THEN Rej("electrons by spin: failed", s)
         ELSE LET m == Obj(s, e.i).meta IN
              IF e.out.v # <<Alpha(m.ne, m.mult), Beta(m.ne, m.mult)>> THEN Rej("electrons by spin: wrong numbers", s) ELSE Ending(e, "electrons by spin", s)
    [] e.op = "name" -> IF ~IsOk(e) THEN Rej("name: failed", s) ELSE IF e.out.v # Meta(e.m).name THEN Rej("name: wrong name", s) ELSE Ending(e, "name", s)
    [] e.op = "geofile" -> IF ~IsOk(e) THEN Rej("geometry of a file: failed", s) ELSE IF e.out.v # e.want THEN Rej("geometry of a file: wrong atoms", s) ELSE Ending(e, "geometry of a file", s)
    [] OTHER -> Rej("unknown event " \o e.op, s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = [heap |-> <<>>, ref |-> <<>>, files |-> <<>>]
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
