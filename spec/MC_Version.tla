----------------------------- MODULE MC_Version ------------------------------
(* All short strings, typed one character at a time.                          *)
EXTENDS Version
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet :
                             s' = Append(s, c)
V == Parse(s)[1]
\* printing what was read reads back as the same version
Round == Parse(s) # <<>> => Parse(Show(V)) = <<V>> \/ (V.patch = <<>> /\ V.pre # <<>> /\ IsDigit(V.pre[1]))
\* the bumped version is later, a plain release, and reads back
BumpOk == Parse(s) # <<>> => /\ Less(V, Bump(V)) /\ Parse(Show(Bump(V))) = <<Bump(V)>>
                             /\ Bump(V).minor = V.minor + 1
\* adding characters never turns a version into something else than a version
Prefix == [][Parse(s) # <<>> => Parse(s') # <<>>]_s
\* a version starts with a digit and contains a dot
Shape == Parse(s) # <<>> => IsDigit(s[1]) /\ \E i \in 2..(Len(s) - 1) :
                                               s[i] = "."
=============================================================================
