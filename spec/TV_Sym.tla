------------------------------- MODULE TV_Sym -------------------------------
(* Traces of expression translation and of the symbol orderings.             *)
EXTENDS TraceLib, Expr, NatKey
VARIABLES sid, l, st
SortedBy(how, names, perm, order) ==
  /\ Len(perm) = Len(names)
  /\ {perm[i] : i \in 1..Len(perm)} = 1..Len(names)
  /\ \A i \in 1..Len(perm)-1 : LET r == Cmp(how, names[perm[i]], names[perm[i+1]], order) IN
        r < 0 \/ (r = 0 /\ perm[i] < perm[i+1])       \* sorting is stable
Step(s, e) ==
  CASE e.op = "translate" ->
         IF ~IsOk(e) THEN Rej("translate: no value", s)
         ELSE IF \E j \in 1..Len(e.env) : Val(e.out.v.neutral, e.env[j]) # Val(e.expr, e.env[j])
              THEN Rej("translate: neutral form has another value", s)
         ELSE Chk(\A j \in 1..Len(e.env) : Val(e.out.v.back, e.env[j]) = Val(e.expr, e.env[j]),
                  "translate: round trip has another value", s)
    [] e.op = "neutral" ->     \* a hand-built neutral expression translated with the sympy dialect
         IF ~IsOk(e) THEN Rej("neutral: no value", s)
         ELSE Chk(\A j \in 1..Len(e.env) : Val(e.out.v, e.env[j]) = Val(e.expr, e.env[j]), "neutral: translated value differs", s)
    [] e.op = "reject" -> Chk(IsExc(e), "reject: unsupported expression accepted", s)
    [] e.op = "sort" ->
         IF ~IsOk(e) THEN Rej("sort: no value", s)
         ELSE Chk(SortedBy(e.how, e.names, e.out.v, e.order), "sort: not in the " \o e.how \o " order", s)
    [] OTHER -> Rej("unknown event", s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
