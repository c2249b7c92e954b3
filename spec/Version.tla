------------------------------- MODULE Version -------------------------------
(* Version strings as sequences of characters:                                *)
(*   major.minor[.patch][.pre|-pre], anything may follow a full match.        *)
EXTENDS Integers, Sequences, TLC
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
RECURSIVE Span(_, _), NumOf(_, _)
\* end (exclusive) of the digits that start at i
Span(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN Span(s, i + 1) ELSE i
RECURSIVE Line(_, _)
Line(s, i) == IF i <= Len(s) /\ s[i] # "\n" THEN Line(s, i + 1) ELSE i
NumOf(s, acc) == IF s = <<>> THEN acc ELSE NumOf(Tail(s), (10 * acc) + DVal(Head(s)))
NumAt(s, i, j) == NumOf(SubSeq(s, i, j - 1), 0)
At(s, i, c) == i <= Len(s) /\ s[i] = c
\* <<>> if not a version, else <<[major, minor, patch (<<>> or <<n>>), pre (<<>> or <<chars>>)]>>
Parse(s) ==
  LET a == Span(s, 1) b == Span(s, a + 1) IN
  IF a = 1 \/ ~At(s, a, ".") \/ b = a + 1 THEN <<>>
  ELSE LET p == Span(s, b + 1)
           hasp == At(s, b, ".") /\ p > b + 1
           e == IF hasp THEN p ELSE b
           z == Line(s, e + 1)
           haspre == (At(s, e, ".") \/ At(s, e, "-")) /\ z > e + 1
       IN << [major |-> NumAt(s, 1, a), minor |-> NumAt(s, a + 1, b),
              patch |-> IF hasp THEN <<NumAt(s, b + 1, p)>> ELSE <<>>,
              pre |-> IF haspre THEN SubSeq(s, e + 1, z - 1) ELSE <<>>] >>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Dec(n \div 10) \o <<Digits[(n % 10) + 1]>>
Show(v) == Dec(v.major) \o <<".">> \o Dec(v.minor)
            \o (IF v.patch = <<>> THEN <<>> ELSE <<".">> \o Dec(v.patch[1]))
            \o (IF v.pre = <<>> THEN <<>> ELSE <<".">> \o v.pre)
Bump(v) == [major |-> v.major, minor |-> v.minor + 1, patch |-> <<0>>, pre |-> <<>>]
\* order of releases
Less(v, w) == v.major < w.major \/ (v.major = w.major /\ v.minor < w.minor)
=============================================================================
