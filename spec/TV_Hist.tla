------------------------------- MODULE TV_Hist ------------------------------
(* Traces of recorders, augmented functions and optimizers.                  *)
EXTENDS TraceLib, Hist
VARIABLES sid, l, st
ASet(a) == {<<a[i][1], a[i][2]>> : i \in 1..Len(a)}
OEntry(e) == [n |-> e.n, x |-> e.x, v |-> e.v, a |-> ASet(e.a)]
OView(r) == [n |-> r.n, h |-> [k \in 1..Len(r.h) |-> OEntry(r.h[k])]]
OSeen(w) == [r |-> OView(w.r), g |-> IF Len(w.g) = 0 THEN <<>> ELSE <<OView(w.g[1])>>]
Seen(o) == [i \in 1..Len(o.hs) |-> OSeen(o.hs[i])]
Views(H) == TLCEval([i \in 1..Len(H.hd) |-> View(H, i)])
SeenOK(H, o, what) == IF Seen(o) = Views(H) THEN "ok"
                      ELSE IF Len(o.hs) # Len(H.hd) THEN what \o ": objects"
                      ELSE IF \E i \in 1..Len(o.hs) : Len(o.hs[i].r.h) # Len(View(H, i).r.h) THEN what \o ": calls recorded"
                      ELSE IF \E i \in 1..Len(o.hs) : o.hs[i].r.n # View(H, i).r.n THEN what \o ": number of calls"
                      ELSE what \o ": history"
Res(H, v, s) == IF v = "ok" THEN Ok(H) ELSE Rej(v, s)
Layer(L) == [k |-> L.k, cond |-> L.cond, n |-> 0, a |-> L.a, id |-> L.id, hist |-> <<>>]
Layers(s) == [i \in 1..Len(s) |-> Layer(s[i])]
RecHists(ls) == LET r == SelectSeq(ls, LAMBDA L: L.k = "rec") IN [i \in 1..Len(r) |-> r[i].hist]
OLog(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2], s[i][3]>>]
Ent(e) == [n |-> e.n, x |-> e.x, v |-> e.v]
Ents(s) == [i \in 1..Len(s) |-> Ent(s[i])]
Step(s, e) ==
  CASE \* ---- recorders
       e.op = "new" -> IF ~IsOk(e) THEN Rej("new: no recorder", s) ELSE LET H == NewRec(IF s = <<>> THEN EmptyHeap ELSE s, e.kind, e.m, e.cond) IN Res(H, SeenOK(H, e.out.v, "new"), s)
    [] e.op = "nest" -> IF ~IsOk(e) THEN Rej("nest: no recorder", s) ELSE LET H == Nest(s, e.i, e.cond) IN Res(H, SeenOK(H, e.out.v, "nest"), s)
    [] e.op \in {"call", "grad"} ->
         LET o == IF e.op = "call" THEN s.hd[e.i] ELSE s.objs[s.hd[e.i]].g IN
         IF o = 0 THEN Chk(IsExc(e), "grad: gradient of a function without one", s)
         ELSE IF Fails(e.x) THEN
              IF ~IsExc(e) THEN Rej("call: exception lost", s) ELSE Res(s, SeenOK(s, e.out, "failed call"), s)
         ELSE IF ~IsOk(e) THEN Rej(e.op \o ": no value", s)
         ELSE LET r == Eval(s, o, e.x, e.s) IN
              IF e.out.v.v # r.v THEN Rej(e.op \o ": wrong value", s) ELSE Res(r.H, SeenOK(r.H, e.out.v, e.op), s)
    [] e.op = "mutate" -> Res(s, SeenOK(s, e.out.v, "argument changed after the call"), s)
    [] e.op = "copy" -> IF ~IsOk(e) THEN Rej("copy: no value", s) ELSE LET H == ShallowCopy(s, e.i) IN Res(H, SeenOK(H, e.out.v, "copy"), s)
    [] e.op = "deepcopy" -> IF ~IsOk(e) THEN Rej("deepcopy: no value", s) ELSE LET H == DeepCopy(s, e.i) IN Res(H, SeenOK(H, e.out.v, "deepcopy"), s)
    [] e.op = "set" -> IF ~IsOk(e) THEN Rej("set: no value", s) ELSE LET H == [s EXCEPT !.fns[BaseFn(s, s.hd[e.i])].m = e.m] IN Res(H, SeenOK(H, e.out.v, "set"), s)
    [] e.op = "get" -> IF ~IsOk(e) THEN Rej("get: no value", s) ELSE Chk(e.out.v = s.fns[BaseFn(s, s.hd[e.i])].m, "get: wrong attribute value", s)
    [] e.op = "noattr" -> Chk(IsExc(e) /\ e.out.e = "AttributeError", "noattr: attribute that does not exist", s)
    \* ---- augmentations
    [] e.op = "aug" -> IF ~IsOk(e) THEN Rej("aug: no value", s)
                       ELSE Ok([m |-> e.m, kind |-> e.kind, fa |-> Layers(e.fa), ga |-> IF HasG(e.kind) THEN Layers(e.ga) ELSE <<>>])
    [] e.op = "augmore" -> IF ~IsOk(e) THEN Rej("augmore: no value", s)
                       ELSE Ok([s EXCEPT !.fa = @ \o Layers(e.fa), !.ga = IF HasG(s.kind) THEN @ \o Layers(e.ga) ELSE @])
    [] e.op = "acall" ->
         IF Fails(e.x) THEN
            IF ~IsExc(e) THEN Rej("acall: exception lost", s)
            ELSE Chk(e.out.log = <<>> /\ e.out.recs = RecHists(s.fa) /\ e.out.cnt = Counter(s.fa), "acall: failed call had effects", s)
         ELSE IF ~IsOk(e) THEN Rej("acall: no value", s)
         ELSE LET r == RunStack(s.fa, FVal(s.m, e.x), e.x) IN
              IF e.out.v.v # r.v THEN Rej("acall: wrong value", s)
              ELSE IF OLog(e.out.v.log) # r.log THEN Rej("acall: wrong side effects", s)
              ELSE IF e.out.v.recs # RecHists(r.ls) THEN Rej("acall: wrong histories", s)
              ELSE IF e.out.v.cnt # Counter(r.ls) THEN Rej("acall: call number", s) ELSE Ok([s EXCEPT !.fa = r.ls])
    [] e.op = "agrad" ->
         IF ~HasG(s.kind) THEN Chk(IsExc(e) /\ e.out.e = "AttributeError", "agrad: gradient of a function without one", s)
         ELSE IF Fails(e.x) THEN Chk(IsExc(e) /\ e.out.log = <<>>, "agrad: failed call had effects", s)
         ELSE IF ~IsOk(e) THEN Rej("agrad: no value", s)
         ELSE LET r == RunStack(s.ga, GVal(s.m, e.x), e.x) IN
              IF e.out.v.v # r.v THEN Rej("agrad: wrong value", s)
              ELSE IF OLog(e.out.v.log) # r.log THEN Rej("agrad: wrong side effects", s)
              ELSE IF e.out.v.recs # RecHists(s.fa) \o RecHists(r.ls) THEN Rej("agrad: wrong histories", s) ELSE Ok([s EXCEPT !.ga = r.ls])
    [] e.op = "aset" -> IF ~IsOk(e) THEN Rej("aset: no value", s) ELSE Ok([s EXCEPT !.m = e.m])
    [] e.op = "aget" -> IF ~IsOk(e) THEN Rej("aget: no value", s) ELSE Chk(e.out.v = s.m, "aget: wrong attribute value", s)
    [] e.op = "acopy" -> IF ~IsOk(e) THEN Rej("acopy: no value", s) ELSE Chk(e.out.v = FVal(s.m * FoldLeft(LAMBDA p, L: IF L.k = "mul" THEN p * L.a ELSE p, 1, s.fa), e.x), "acopy: wrong value", s)
    \* ---- optimizers
    [] e.op = "minimize" ->
         IF ~IsOk(e) THEN Rej("minimize: no value", s)
         ELSE LET v == e.out.v
                  steps == [i \in 1..Len(e.steps) |-> <<e.steps[i][1], [j \in 1..Len(e.init) |-> e.init[j] + e.steps[i][2][j]]>>]
                  m == e.m * e.pre b == Best(steps, m) bx == OfKind(steps, "f")[b][2] IN
              IF [i \in 1..Len(v.seen) |-> <<v.seen[i][1], v.seen[i][2]>>] # steps THEN Rej("minimize: evaluations", s)
              ELSE IF v.val # FVal(m, bx) \/ v.par # bx THEN Rej("minimize: optimum", s)
              ELSE IF v.nfev # Len(OfKind(steps, "f")) THEN Rej("minimize: number of evaluations", s)
              ELSE IF e.keep = 0 THEN Chk(v.hist = << <<>> >> /\ v.ghist = <<>>, "minimize: history not asked for", s)
              ELSE IF Len(v.hist) # 1 THEN Rej("minimize: no history", s)
              ELSE IF Ents(v.hist[1]) # Entries(steps, "f", m, e.cond) THEN Rej("minimize: wrong history", s)
              ELSE IF (Len(v.ghist) = 1) # HasG(e.kind) THEN Rej("minimize: gradient history", s)
              ELSE IF HasG(e.kind) /\ Ents(v.ghist[1]) # Entries(steps, "g", m, e.cond) THEN Rej("minimize: wrong gradient history", s)
              ELSE Chk(e.own = 0 \/ Ents(v.own) = Entries(steps, "f", e.m, [k |-> "always", a |-> 0]), "minimize: the function's own recorder", s)
    [] e.op = "extend" ->
         IF ~IsOk(e) THEN Rej("extend: no value", s)
         ELSE LET v == e.out.v IN
              IF Ents(v.hist) # Ents(e.h) \o Entries(e.steps, "f", e.m, e.cond) THEN Rej("extend: history", s)
              ELSE IF ~HasG(e.kind) THEN Ok(s)
              ELSE IF Len(v.ghist) # 1 THEN Rej("extend: no gradient history", s)
              ELSE IF Ents(v.ghist[1]) # Ents(e.g) \o Entries(e.steps, "g", e.m, e.cond) THEN Rej("extend: gradient history", s)
              ELSE Chk(v.same = 1, "extend: given histories modified", s)
    [] e.op = "nested" ->
         IF ~IsOk(e) THEN Rej("nested: no value", s)
         ELSE LET v == e.out.v
                  Cat(k) == FoldLeft(LAMBDA acc, i: acc \o Entries(e.steps, k, i, e.cond), <<>>, [i \in 1..e.iters |-> i])
                  b == Best(e.steps, e.iters) bx == OfKind(e.steps, "f")[b][2] IN
              IF v.nit # e.iters \/ v.nfev # e.iters * Len(OfKind(e.steps, "f")) THEN Rej("nested: counts", s)
              ELSE IF v.val # FVal(e.iters, bx) \/ v.par # bx THEN Rej("nested: optimum", s)
              ELSE IF e.keep = 0 THEN Chk(v.hist = << <<>> >> /\ v.ghist = <<>>, "nested: history not asked for", s)
              ELSE IF Len(v.hist) # 1 THEN Rej("nested: no history", s)
              ELSE IF Ents(v.hist[1]) # Cat("f") THEN Rej("nested: wrong history", s)
              ELSE IF ~HasG(e.kind) THEN Chk(v.ghist = <<>>, "nested: gradient history", s)
              ELSE Chk(Len(v.ghist) = 1 /\ Ents(v.ghist[1]) = Cat("g"), "nested: wrong gradient history", s)
    [] OTHER -> Rej("unknown event", s)
Init == sid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Traces[sid].ev)
        /\ LET r == Step(st, Traces[sid].ev[l]) IN
             /\ IF r.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", sid, l, r.v>>)
             /\ st' = r.st
             /\ l' = IF r.v = "ok" THEN l + 1 ELSE 1000000
        /\ UNCHANGED sid
=============================================================================
