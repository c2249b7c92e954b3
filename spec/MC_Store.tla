------------------------------ MODULE MC_Store -------------------------------
(* All short histories of a directory: saves (with and without permission to  *)
(* overwrite, of representable and unrepresentable objects) and loads.         *)
EXTENDS Store, Json
CONSTANTS Names, Objs, Depth, EmitGen
VARIABLES fs, ops, got
vars == <<fs, ops, got>>
Fmts == {"op", "plain"}
Kind(o) == IF o = 3 THEN "int" ELSE "q"       \* object 3 cannot be held by format "op"
Init == fs = NoFiles /\ ops = <<>> /\ got = <<>>
Save == \E f \in Fmts, n \in Names, o \in Objs, w \in {0, 1} :
          /\ Len(ops) < Depth /\ (f = "plain" => w = 1)
          /\ ops' = Append(ops, [o |-> "save", f |-> f, n |-> n, i |-> o, w |-> w])
          /\ fs' = IF Refuses(fs, f, n, Kind(o), w) THEN fs ELSE Saved(fs, f, n, o)
          /\ UNCHANGED got
Load == \E n \in Names :
          /\ Len(ops) < Depth
          /\ ops' = Append(ops, [o |-> "load", f |-> "", n |-> n, i |-> 0, w |-> 0])
          /\ got' = IF CanLoad(fs, n) THEN Append(got, <<n, Loaded(fs, n), Len(ops)>>) ELSE got
          /\ UNCHANGED fs
Emit == /\ EmitGen /\ Len(ops) = Depth /\ ops[Depth].o = "load" /\ ops' = Append(ops, [o |-> "end", f |-> "", n |-> 0, i |-> 0, w |-> 0])
        /\ PrintT("GEN:" \o ToJson([ops |-> ops])) /\ UNCHANGED <<fs, got>>
Next == Save \/ Load \/ Emit
\* what a load gives is the last accepted save of that name
Accepted(k) == LET o == ops[k] IN o.o = "save" /\ Holds(o.f, Kind(o.i)) /\
   (Guarded(o.f) /\ o.w = 0 => \A j \in 1..(k-1) : ~(ops[j].o = "save" /\ ops[j].n = o.n /\ Holds(ops[j].f, Kind(ops[j].i))))
LastWins == \A g \in 1..Len(got) :
   LET K == {k \in 1..got[g][3] : Accepted(k) /\ ops[k].n = got[g][1]} IN
   K # {} /\ LET m == CHOOSE k \in K : \A j \in K : j <= k IN ops[m].i = got[g][2]
\* nothing but a save touches a file, and only its own
Frame == [][\A n \in Names : (n \in DOMAIN fs' => n \in DOMAIN fs /\ fs'[n] = fs[n]) \/
             (Len(ops') > Len(ops) /\ ops'[Len(ops')].o = "save" /\ ops'[Len(ops')].n = n)]_vars
Grows == [][DOMAIN fs \subseteq DOMAIN fs']_vars
=============================================================================
