-------------------------------- MODULE Hist --------------------------------
(* Recorders, augmentations and optimizers as state machines over a heap of  *)
(* functions, history lists and wrapper objects.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
\* ---- target functions: x |-> m * sum x_i^2, failing on the value 99 -----------
SumSq(x) == FoldLeft(LAMBDA a, b: a + (b * b), 0, x)
FVal(m, x) == <<m * SumSq(x)>>
GVal(m, x) == [i \in 1..Len(x) |-> 2 * m * x[i]]
Fails(x) == \E i \in 1..Len(x) : x[i] = 99
HasG(kind) == kind \in {"grad", "artgrad"}
IsArt(kind) == kind \in {"art", "artgrad"}
\* ---- save conditions: (value, parameters, call number from zero) -----------------
Cond(c, v, x, n) == CASE c.k = "always" -> TRUE
                      [] c.k = "never" -> FALSE
                      [] c.k = "nth" -> (n % c.a) = 0
                      [] c.k = "valgt" -> v[1] > c.a
                      [] c.k = "xeq" -> x[1] = c.a
                      [] c.k = "from" -> n >= c.a
\* artifacts: a script of <<name, value, force>>; later values replace earlier ones
ArtNames(sc) == {sc[i][1] : i \in 1..Len(sc)}
ArtVal(sc, nm) == sc[CHOOSE i \in 1..Len(sc) : sc[i][1] = nm /\ \A j \in (i+1)..Len(sc) : sc[j][1] # nm][2]
Arts(sc) == {<<nm, ArtVal(sc, nm)>> : nm \in ArtNames(sc)}
Forced(sc) == \E i \in 1..Len(sc) : sc[i][3] = 1
\* ---- heap -----------------------------------------------------------------------
EmptyHeap == [fns |-> <<>>, hists |-> <<>>, objs |-> <<>>, hd |-> <<>>]
FnNode(f) == [k |-> "fn", f |-> f, t |-> 0, cond |-> [k |-> "never", a |-> 0], n |-> 0, h |-> 0, g |-> 0, art |-> FALSE]
GfNode(f) == [FnNode(f) EXCEPT !.k = "gfn"]
AddObj(H, o) == [H EXCEPT !.objs = Append(@, o)]
AddHist(H) == [H EXCEPT !.hists = Append(@, <<>>)]
PlainRec(H, t, cond, art, g) ==     \* a recorder of object t
  LET H1 == AddHist(H) IN
  AddObj(H1, [k |-> "rec", f |-> 0, t |-> t, cond |-> cond, n |-> 0, h |-> Len(H1.hists), g |-> g, art |-> art])
RecOver(H, t, cond) ==
  LET o == H.objs[t] IN
  IF o.k = "fn" THEN
    LET kind == H.fns[o.f].kind IN
    IF HasG(kind) THEN LET H1 == AddObj(H, GfNode(o.f)) H2 == PlainRec(H1, Len(H1.objs), cond, FALSE, 0)
                       IN PlainRec(H2, t, cond, IsArt(kind), Len(H2.objs))
    ELSE PlainRec(H, t, cond, IsArt(kind), 0)
  ELSE IF o.g # 0 THEN LET H2 == PlainRec(H, o.g, cond, FALSE, 0) IN PlainRec(H2, t, cond, FALSE, Len(H2.objs))
  ELSE PlainRec(H, t, cond, FALSE, 0)
Handle(H) == [H EXCEPT !.hd = Append(@, Len(H.objs))]
NewFn(H, kind, m) == LET H1 == [H EXCEPT !.fns = Append(@, [kind |-> kind, m |-> m])] IN AddObj(H1, FnNode(Len(H1.fns)))
NewRec(H, kind, m, cond) == LET H1 == NewFn(H, kind, m) IN Handle(RecOver(H1, Len(H1.objs), cond))
Nest(H, i, cond) == Handle(RecOver(H, H.hd[i], cond))
\* evaluation: the value, and the heap after it
RECURSIVE Eval(_, _, _, _)
Eval(H, o, x, sc) ==
  LET ob == H.objs[o] IN
  IF ob.k = "fn" THEN [H |-> H, v |-> FVal(H.fns[ob.f].m, x)]
  ELSE IF ob.k = "gfn" THEN [H |-> H, v |-> GVal(H.fns[ob.f].m, x)]
  ELSE LET r == Eval(H, ob.t, x, sc) sel == Cond(ob.cond, r.v, x, ob.n) \/ (ob.art /\ Forced(sc))
           e == [n |-> ob.n, x |-> x, v |-> r.v, a |-> IF ob.art THEN Arts(sc) ELSE {}]
           H1 == [r.H EXCEPT !.objs[o].n = @ + 1] IN
       [H |-> IF sel THEN [H1 EXCEPT !.hists[ob.h] = Append(@, e)] ELSE H1, v |-> r.v]
\* copies
RECURSIVE Reach(_, _)
Reach(H, o) == LET ob == H.objs[o] IN {o} \cup (IF ob.t # 0 THEN Reach(H, ob.t) ELSE {}) \cup (IF ob.g # 0 THEN Reach(H, ob.g) ELSE {})
RECURSIVE BaseFn(_, _)
BaseFn(H, o) == IF H.objs[o].k = "rec" THEN BaseFn(H, H.objs[o].t) ELSE H.objs[o].f
ShallowCopy(H, i) ==
  LET o == H.objs[H.hd[i]] IN
  IF o.g = 0 THEN Handle(AddObj(H, o))
  ELSE LET H1 == AddObj(H, H.objs[o.g]) IN Handle(AddObj(H1, [o EXCEPT !.g = Len(H1.objs)]))
Rank(S, x) == Cardinality({y \in S : y <= x})
DeepCopy(H, i) ==
  LET R == Reach(H, H.hd[i])
      rs == SetToSortSeq(R, <)
      HR == {H.objs[o].h : o \in R} \ {0}
      hs == SetToSortSeq(HR, <)
      FR == {H.objs[o].f : o \in R} \ {0}
      fs == SetToSortSeq(FR, <)
      no == Len(H.objs) nh == Len(H.hists) nf == Len(H.fns)
      Mv(o) == [o EXCEPT !.t = IF @ = 0 THEN 0 ELSE no + Rank(R, @), !.g = IF @ = 0 THEN 0 ELSE no + Rank(R, @),
                         !.h = IF @ = 0 THEN 0 ELSE nh + Rank(HR, @), !.f = IF @ = 0 THEN 0 ELSE nf + Rank(FR, @)]
      H1 == [fns |-> H.fns \o [k \in 1..Len(fs) |-> H.fns[fs[k]]],
             hists |-> H.hists \o [k \in 1..Len(hs) |-> H.hists[hs[k]]],
             objs |-> H.objs \o [k \in 1..Len(rs) |-> Mv(H.objs[rs[k]])], hd |-> H.hd]
  IN [H1 EXCEPT !.hd = Append(@, no + Rank(R, H.hd[i]))]
\* ---- what a user sees of a recorder -----------------------------------------------
ViewOf(H, o) == [n |-> H.objs[o].n, h |-> H.hists[H.objs[o].h]]
View(H, i) == LET o == H.hd[i] IN [r |-> ViewOf(H, o), g |-> IF H.objs[o].g = 0 THEN <<>> ELSE <<ViewOf(H, H.objs[o].g)>>]
\* ---- stacks of augmentations, innermost first ---------------------------------------
\* layer [k |-> "eff" | "rec" | "mul", cond, n, a, hist]
RunStack(ls, v0, x) ==
  FoldLeft(LAMBDA acc, i:
     LET L == acc.ls[i] v == acc.v IN
     CASE L.k = "mul" -> [acc EXCEPT !.v = [j \in 1..Len(v) |-> v[j] * L.a]]
       [] L.k = "eff" -> [acc EXCEPT !.ls[i].n = @ + 1, !.log = IF Cond(L.cond, v, x, L.n) THEN Append(@, <<L.id, L.n, v>>) ELSE @]
       [] L.k = "rec" -> [acc EXCEPT !.ls[i].n = @ + 1, !.ls[i].hist = IF Cond(L.cond, v, x, L.n) THEN Append(@, <<L.n, x, v>>) ELSE @],
     [ls |-> ls, v |-> v0, log |-> <<>>], [i \in 1..Len(ls) |-> i])
Counter(ls) == LET S == {i \in 1..Len(ls) : ls[i].k # "mul"} IN IF S = {} THEN -1 ELSE ls[CHOOSE i \in S : \A j \in S : j <= i].n
\* ---- recording a run of evaluations ---------------------------------------------------
\* steps <<kind "f" or "g", x>>; the entries selected by cond, numbered per kind from zero
OfKind(steps, k) == SelectSeq(steps, LAMBDA s: s[1] = k)
Entries(steps, k, m, cond) ==
  LET s == OfKind(steps, k)
      es == [i \in 1..Len(s) |-> [n |-> i - 1, x |-> s[i][2], v |-> IF k = "f" THEN FVal(m, s[i][2]) ELSE GVal(m, s[i][2])]] IN
  SelectSeq(es, LAMBDA e: Cond(cond, e.v, e.x, e.n))
Best(steps, m) == LET s == OfKind(steps, "f") IN
  CHOOSE i \in 1..Len(s) : /\ \A j \in 1..Len(s) : FVal(m, s[i][2])[1] <= FVal(m, s[j][2])[1]
                           /\ \A j \in 1..(i-1) : FVal(m, s[i][2])[1] < FVal(m, s[j][2])[1]
=============================================================================
