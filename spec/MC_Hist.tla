------------------------------ MODULE MC_Hist -------------------------------
(* All short histories of a recorder: calls (some failing), gradient calls,  *)
(* copies, deep copies, recorders of recorders.                              *)
EXTENDS Hist, Json
CONSTANTS Depth, Conds, Kinds, EmitGen
VARIABLES H, ops, calls, kind, cond
vars == <<H, ops, calls, kind, cond>>
CondSet == Conds
MCConds == {[k |-> "always", a |-> 0], [k |-> "nth", a |-> 2], [k |-> "valgt", a |-> 1], [k |-> "never", a |-> 0]}
Init == /\ kind \in Kinds /\ cond \in CondSet
        /\ H = NewRec(EmptyHeap, kind, 1, cond) /\ ops = <<>> /\ calls = <<>>
Step(o) == Len(ops) < Depth /\ ops' = Append(ops, o) /\ UNCHANGED <<kind, cond>>
Sc == << <<"a", 7, 0>> >>
ScF == << <<"a", 7, 0>>, <<"b", 8, 1>> >>
Call == \E i \in 1..Len(H.hd), x \in {<<1>>, <<2>>}, sc \in (IF IsArt(kind) THEN {Sc, ScF} ELSE {<<>>}) :
          /\ Step([o |-> "call", i |-> i, x |-> x, s |-> sc])
          /\ H' = Eval(H, H.hd[i], x, sc).H /\ calls' = Append(calls, [i |-> i, x |-> x, s |-> sc])
Fail == \E i \in 1..Len(H.hd) : Step([o |-> "call", i |-> i, x |-> <<99>>, s |-> <<>>]) /\ UNCHANGED <<H, calls>>
Grad == \E i \in 1..Len(H.hd) : H.objs[H.hd[i]].g # 0 /\ Step([o |-> "grad", i |-> i, x |-> <<2>>, s |-> <<>>])
          /\ H' = Eval(H, H.objs[H.hd[i]].g, <<2>>, <<>>).H /\ UNCHANGED calls
Copy == \E i \in 1..Len(H.hd) : Len(H.hd) < 3 /\ Step([o |-> "copy", i |-> i, x |-> <<>>, s |-> <<>>]) /\ H' = ShallowCopy(H, i) /\ UNCHANGED calls
Deep == \E i \in 1..Len(H.hd) : Len(H.hd) < 3 /\ Step([o |-> "deepcopy", i |-> i, x |-> <<>>, s |-> <<>>]) /\ H' = DeepCopy(H, i) /\ UNCHANGED calls
NestA == \E i \in 1..Len(H.hd) : Len(H.hd) < 3 /\ Step([o |-> "nest", i |-> i, x |-> <<>>, s |-> <<>>]) /\ H' = Nest(H, i, cond) /\ UNCHANGED calls
Emit == EmitGen /\ Len(ops) = Depth /\ ops' = Append(ops, [o |-> "end", i |-> 0, x |-> <<>>, s |-> <<>>]) /\ UNCHANGED <<H, calls, kind, cond>>
        /\ PrintT("GEN:" \o ToJson([kind |-> kind, cond |-> cond, ops |-> ops]))
Next == Call \/ Fail \/ Grad \/ Copy \/ Deep \/ NestA \/ Emit
\* ---- invariants
Ops(S) == \E i \in 1..Len(ops) : ops[i].o \in S
\* without copies or nesting: the history is exactly the selected calls, in order
Select(cs) == SelectSeq([k \in 1..Len(cs) |-> [n |-> k - 1, x |-> cs[k].x, v |-> FVal(1, cs[k].x), a |-> IF IsArt(kind) THEN Arts(cs[k].s) ELSE {}, f |-> Forced(cs[k].s)]],
                       LAMBDA e: Cond(cond, e.v, e.x, e.n) \/ (IsArt(kind) /\ e.f))
Drop(e) == [n |-> e.n, x |-> e.x, v |-> e.v, a |-> e.a]
Exact == ~Ops({"copy", "deepcopy", "nest"}) =>
           View(H, 1).r = [n |-> Len(calls), h |-> [k \in 1..Len(Select(calls)) |-> Drop(Select(calls)[k])]]
\* call numbers in a history increase (shallow copies share a list and may interleave)
Increasing == ~Ops({"copy"}) => \A k \in 1..Len(H.hists) : \A a, b \in 1..Len(H.hists[k]) : a < b => H.hists[k][a].n < H.hists[k][b].n
Counted == \A o \in 1..Len(H.objs) : H.objs[o].k = "rec" /\ ~Ops({"copy"}) => Len(H.hists[H.objs[o].h]) <= H.objs[o].n
\* a call changes only the histories it reaches; failing calls change none
Local == [][\A k \in 1..Len(H.hists) :
              (Len(ops') = Len(ops) + 1 /\ H'.hists[k] # H.hists[k]) =>
                 LET o == ops'[Len(ops')] IN
                 /\ o.o \in {"call", "grad"} /\ o.x # <<99>>
                 /\ k \in {H.objs[z].h : z \in Reach(H, H.hd[o.i])}
                 /\ SubSeq(H'.hists[k], 1, Len(H.hists[k])) = H.hists[k]]_vars
\* deep copies reach nothing of the original
Apart == \A i \in 1..Len(ops) : ops[i].o = "deepcopy" =>
           LET new == 1 + Cardinality({j \in 1..i : ops[j].o \in {"copy", "deepcopy", "nest"}}) IN
           \A w \in 1..(new-1) : Reach(H, H.hd[w]) \cap Reach(H, H.hd[new]) = {}
=============================================================================
