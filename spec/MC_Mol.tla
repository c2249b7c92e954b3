-------------------------------- MODULE MC_Mol -------------------------------
(* Saving and opening molecules: objects never share their values, a saved    *)
(* molecule opened again has every field of the one that was saved, and a     *)
(* value once seen in an object stays until it is set or loaded again.        *)
EXTENDS Mol
CONSTANTS MaxObj, Toks, Names, Depth
VARIABLES s, last, d
vars == <<s, last, d>>
F == {"one_body_integrals", "fci_one_rdm"}          \* the arrays that are used
G == {"hf_energy", "general_calculations"}
Init == s = [heap |-> <<>>, ref |-> <<>>, files |-> <<>>] /\ last = <<"init">> /\ d = 0
Regs == 1..Len(s.ref)
Go(t, what) == s' = t /\ last' = what /\ d' = d + 1
Next == /\ d < Depth
        /\ \/ /\ Len(s.ref) < MaxObj
              /\ \/ \E f \in Names, m \in Toks :
                       Go(Push(s, NewObj(f, m, 1)), <<"new">>)
                 \/ \E f \in DOMAIN s.files :
                       Go(Open(s, f), <<"open", f>>)
           \/ \E r \in Regs :
                 \/ Go(Save(s, r), <<"save", r>>)
                 \/ (HasFile(s, Obj(s, r).file) /\ Go(Load(s, r), <<"load", r>>))
                 \/ \E x \in F, v \in Toks :
                       Go(SetLz(s, r, x, v), <<"set", r, x, v>>)
                 \/ \E x \in G, v \in Toks :
                       Go(SetSc(s, r, x, v), <<"set", r, x, v>>)
                 \/ \E x \in F :
                       Go(Read(s, r, x), <<"get", r, x>>)
           \/ \E f \in DOMAIN s.files :
                 Go(Del(s, f), <<"del", f>>)
See(t, r, x) == IF x \in Lazies THEN Value(t, Obj(t, r), x) ELSE Obj(t, r).sc[x]
\* an object opened from a file just saved sees what the saving object sees
RoundTrip == last[1] = "save" => LET r == last[2] t == Open(s, Obj(s, r).file) n == Len(t.ref) IN
                 /\ Obj(t, n).meta = Obj(t, r).meta
                 /\ \A x \in F \cup G :
                       See(t, n, x) = See(t, r, x)
Loaded == last[1] = "load" => Content(Obj(s, last[2])).sc = s.files[Obj(s, last[2]).file].sc
\* saving twice is saving once
Idem == \A r \in Regs : Save(Save(s, r), r) = Save(s, r)
\* what one object sees changes only through itself or through the files
Frame == [][\A r \in Regs : (last'[1] \in {"set", "get", "load"} /\ last'[2] # r) => Obj(s', r) = Obj(s, r)]_vars
\* an array seen in memory does not vanish with the file
Keeps == [][\A r \in Regs : \A x \in F :
               (Obj(s, r).lz[x] # 0 /\ last'[1] # "set") => Obj(s', r).lz[x] = Obj(s, r).lz[x]]_vars
\* other files stay as they are
Files == [][\A f \in DOMAIN s.files : (f \in DOMAIN s'.files /\ s'.files[f] # s.files[f]) => (last'[1] = "save" /\ Obj(s, last'[2]).file = f)]_vars
ASSUME Name(Formula(<<"O", "H", "H">>), "sto-3g", 1, 0, "") = "H2-O1_sto-3g_singlet"
ASSUME Name(Formula(<<"H">>), "b", 2, 2, "d") = "H1_b_doublet_2+_d"
ASSUME Electrons(<<"O", "H", "H">>, 1) = 9 /\ Alpha(9, 2) = 5 /\ Beta(9, 2) = 4
ASSUME \A ne \in 0..12 : \A m \in 1..(ne + 1) :
          (ne + m - 1) % 2 = 0 => (Alpha(ne, m) + Beta(ne, m) = ne /\ Alpha(ne, m) - Beta(ne, m) = m - 1)
=============================================================================
