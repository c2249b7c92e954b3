------------------------------ MODULE LinExpr -------------------------------
(* Symbolic gate parameters: integer-linear expressions in symbols 1..K with *)
(* an angle constant.  t is a function {symbols with nonzero coefficient} -> *)
(* coefficient.  JSON form: [k |-> <<p,q>>, t |-> << <<coef, sym>>, ... >>]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

LinConst(k) == [k |-> k, t |-> <<>>]
LinDomain(e) == {e.t[i][2] : i \in 1..Len(e.t)}
CoefOf(e, s) == FoldLeft(LAMBDA acc, x: IF x[2] = s THEN acc + x[1] ELSE acc, 0, e.t)
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b: a < b)
LinMake(k, D, f(_)) ==
  LET nz == {s \in D : f(s) # 0} IN
  [k |-> k, t |-> LET ss == SortedSeq(nz) IN TLCEval([i \in 1..Len(ss) |-> <<f(ss[i]), ss[i]>>])]
LinAdd(a, b) == LinMake(<<a.k[1]+b.k[1], a.k[2]+b.k[2]>>, LinDomain(a) \cup LinDomain(b),
                        LAMBDA s: CoefOf(a, s) + CoefOf(b, s))
LinScale(c, a) == LinMake(<<c*a.k[1], c*a.k[2]>>, LinDomain(a), LAMBDA s: c * CoefOf(a, s))
LinSym(s) == [k |-> <<0,0>>, t |-> << <<1, s>> >>]
\* a map is << <<sym, lin>>, ... >> with distinct symbols; substitution is simultaneous
MapDom(m) == {m[i][1] : i \in 1..Len(m)}
MapGet(m, s) == LET i == CHOOSE i \in 1..Len(m) : m[i][1] = s IN m[i][2]
LinSubst(e, m) ==
  FoldLeft(LAMBDA acc, x: LinAdd(acc, LinScale(x[1], IF x[2] \in MapDom(m) THEN MapGet(m, x[2]) ELSE LinSym(x[2]))),
           LinConst(e.k), e.t)
LinNorm(e) == LinSubst(e, <<>>)
ParamsSubst(ps, m) == TLCEval([i \in 1..Len(ps) |-> LinSubst(ps[i], m)])
\* symbols of a parameter list, by name order (symbols are numbered in name order)
ParamSyms(ps) == SortedSeq(UNION {LinDomain(ps[i]) : i \in 1..Len(ps)})
\* first-appearance order over a sequence of symbol sequences
AppearOrder(ss) == FoldLeft(LAMBDA acc, s: acc \o SelectSeq(s, LAMBDA x: ~\E i \in 1..Len(acc): acc[i] = x),
                            <<>>, ss)
=============================================================================
