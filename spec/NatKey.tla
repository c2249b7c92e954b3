-------------------------------- MODULE NatKey ------------------------------
(* Natural orderings of names.  A name is a sequence of code points; its key *)
(* alternates text groups (possibly empty) and digit groups (numbers).       *)
EXTENDS Integers, Sequences, SequencesExt, TLC
IsDig(c) == c >= 48 /\ c <= 57
\* groups: [d |-> FALSE, s |-> codepoints] / [d |-> TRUE, v |-> number]
RECURSIVE Grp(_, _, _)
Grp(s, acc, cur) ==   \* cur: current text group; called at a text boundary
  IF s = <<>> THEN Append(acc, [d |-> FALSE, s |-> cur, v |-> 0])
  ELSE IF ~IsDig(Head(s)) THEN Grp(Tail(s), acc, Append(cur, Head(s)))
  ELSE LET k == CHOOSE k \in 1..Len(s) : (\A i \in 1..k : IsDig(s[i])) /\ (k = Len(s) \/ ~IsDig(s[k+1]))
           n == FoldLeft(LAMBDA a, c: 10*a + (c - 48), 0, SubSeq(s, 1, k))
       IN Grp(SubSeq(s, k+1, Len(s)), Append(Append(acc, [d |-> FALSE, s |-> cur, v |-> 0]), [d |-> TRUE, s |-> <<>>, v |-> n]), <<>>)
Key(name) == Grp(name, <<>>, <<>>)
RevKey(name) == Reverse(Key(name))
RECURSIVE CmpS(_, _)
CmpS(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
              ELSE IF Head(a) < Head(b) THEN -1 ELSE IF Head(a) > Head(b) THEN 1 ELSE CmpS(Tail(a), Tail(b))
CmpG(x, y) == IF x.d THEN (IF x.v < y.v THEN -1 ELSE IF x.v > y.v THEN 1 ELSE 0) ELSE CmpS(x.s, y.s)
RECURSIVE CmpK(_, _)
CmpK(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
              ELSE LET c == CmpG(Head(a), Head(b)) IN IF c # 0 THEN c ELSE CmpK(Tail(a), Tail(b))
\* name_index under a fixed order of names
SplitU(s) == LET k == CHOOSE k \in 1..Len(s) : s[k] = 95 IN <<SubSeq(s, 1, k-1), SubSeq(s, k+1, Len(s))>>
Num(s) == FoldLeft(LAMBDA a, c: 10*a + (c - 48), 0, s)
PosIn(order, n) == CHOOSE i \in 1..Len(order) : order[i] = n
CmpFixed(a, b, order) ==
  LET x == SplitU(a) y == SplitU(b) IN
  IF Num(x[2]) # Num(y[2]) THEN (IF Num(x[2]) < Num(y[2]) THEN -1 ELSE 1)
  ELSE LET p == PosIn(order, x[1]) q == PosIn(order, y[1]) IN IF p < q THEN -1 ELSE IF p > q THEN 1 ELSE 0
Cmp(how, a, b, order) == CASE how = "nat" -> CmpK(Key(a), Key(b)) [] how = "rev" -> CmpK(RevKey(a), RevKey(b))
                           [] how = "fixed" -> CmpFixed(a, b, order)
=============================================================================
