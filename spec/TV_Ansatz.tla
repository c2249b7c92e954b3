------------------------------ MODULE TV_Ansatz -----------------------------
(* Traces of ansatz objects: st = sequence of                                *)
(* [a settings, sup, ranks, dirty since the last request, gens]              *)
EXTENDS TraceLib, Ansatz
VARIABLES sid, l, st
Names(e) == e.names
OCirc(c) == [i \in 1..Len(c) |-> <<c[i][1], <<c[i][2][1], c[i][2][2]>>, c[i][3]>>]
Settings(e) == [L |-> e.L, q |-> e.q, x |-> e.x, y |-> e.y]
Requested(s, e) == [s EXCEPT ![e.i].dirty = FALSE, ![e.i].gens = e.out.v.gens]
Step(s, e) ==
  CASE e.op = "new" -> IF e.L < 0 THEN Chk(IsExc(e), "new: negative number of layers accepted", s)
                       ELSE IF ~IsOk(e) THEN Rej("new: no ansatz", s)
                       ELSE Ok(Append(s, [a |-> Settings(e), sup |-> e.sup, ranks |-> e.ranks, names |-> e.names, dirty |-> TRUE, gens |-> 0]))
    [] e.op = "set" -> IF ~IsOk(e) THEN Rej("set: failed", s)
                       ELSE Ok([s EXCEPT ![e.i].a = CASE e.p = "L" -> [@ EXCEPT !.L = e.v] [] e.p = "q" -> [@ EXCEPT !.q = e.v] [] e.p = "x" -> [@ EXCEPT !.x = e.v] [] e.p = "y" -> [@ EXCEPT !.y = e.v],
                                        ![e.i].dirty = TRUE])
    [] e.op = "other" -> IF ~IsOk(e) THEN Rej("other: failed", s) ELSE Ok(s)
    [] e.op = "read" -> LET a == s[e.i].a IN IF ~IsOk(e) THEN Rej("read: no value", s)
                        ELSE Chk(e.out.v = <<a.L, a.q, a.x, a.y>>, "read: settings", s)
    [] e.op = "get" ->
         IF s[e.i].sup = 0 THEN Chk(IsExc(e) /\ e.out.e = "NotImplementedError", "get: parametrized circuit of an ansatz that does not support it", s)
         ELSE IF ~IsOk(e) THEN Rej("get: no value", s)
         ELSE IF OCirc(e.out.v.c) # CircOf(s[e.i].a) THEN Rej("get: stale or wrong circuit", s)
         ELSE IF ~s[e.i].dirty /\ e.out.v.gens # s[e.i].gens THEN Rej("get: circuit not reused", s) ELSE Ok(Requested(s, e))
    [] e.op = "exec" ->
         LET o == s[e.i] c == CircOf(o.a) syms == SortedOf(c, o.names, o.ranks)
             order == IF o.sup = 1 THEN syms ELSE SetToSortSeq(SymsOf(c), <) IN
         IF Len(e.ps) # Len(order) THEN Chk(IsExc(e), "exec: wrong number of parameters accepted", [s EXCEPT ![e.i].dirty = TRUE])
         ELSE IF ~IsOk(e) THEN Rej("exec: no value", s)
         ELSE IF OCirc(e.out.v.c) # BindA(c, order, e.ps) THEN Rej("exec: stale or wrong circuit", s)
         ELSE IF o.sup = 1 /\ ~o.dirty /\ e.out.v.gens # o.gens THEN Rej("exec: circuit not reused", s) ELSE Ok(Requested(s, e))
    [] e.op = "noparams" -> Chk(IsExc(e), "exec: no parameters accepted", s)
    [] e.op = "count" -> IF s[e.i].sup = 0 THEN Chk(IsExc(e) /\ e.out.e = "NotImplementedError", "count: number of parameters of an ansatz that does not support it", s)
                         ELSE IF ~IsOk(e) THEN Rej("count: no value", s)
                         ELSE Chk(e.out.v.c = Cardinality(SymsOf(CircOf(s[e.i].a))), "count: wrong number of parameters", [s EXCEPT ![e.i].dirty = TRUE])
    [] e.op = "combine" -> IF ~IsOk(e) THEN Rej("combine: no value", s) ELSE Chk(e.out.v = e.a \o e.b, "combine: not the concatenation", s)
    [] OTHER -> Rej("unknown event", s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
