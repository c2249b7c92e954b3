----------------------------- MODULE MC_Ansatz ------------------------------
(* The cache of an ansatz against all short histories of changes and uses.  *)
EXTENDS Ansatz, Json
CONSTANTS Depth, EmitGen
VARIABLES a, cache, dirty, ops
vars == <<a, cache, dirty, ops>>
Nil == <<>>
Names == <<<<97, 95, 48>>, <<97, 95, 49>>, <<97, 95, 50>>, <<97>>, <<98>>, <<99>>, <<98, 95, 48>>, <<98, 95, 49>>, <<98, 95, 50>>>>
Init == a = [L |-> 1, q |-> 1, x |-> 0, y |-> 0] /\ cache = Nil /\ dirty = TRUE /\ ops = <<>>
Do(o) == Len(ops) < Depth /\ ops' = Append(ops, o)
Change(o, b) == Do(o) /\ a' = b /\ cache' = Nil /\ dirty' = TRUE
SetL == \E v \in 0..2 : Change(<<"L", v>>, [a EXCEPT !.L = v])
SetQ == \E v \in 1..2 : Change(<<"q", v>>, [a EXCEPT !.q = v])
SetX == \E v \in 0..1 : Change(<<"x", v>>, [a EXCEPT !.x = v])
Meth == \E v \in 0..1 : Change(<<"y", v>>, [a EXCEPT !.y = v])
Request(o) == Do(o) /\ cache' = (IF cache = Nil THEN <<CircOf(a)>> ELSE cache) /\ dirty' = FALSE /\ UNCHANGED a
Get == Request(<<"get", 0>>)
Exec == Request(<<"exec", 0>>)
Emit == EmitGen /\ Len(ops) = Depth /\ PrintT("GEN:" \o ToJson(ops)) /\ ops' = Append(ops, <<"end", 0>>) /\ UNCHANGED <<a, cache, dirty>>
Next == SetL \/ SetQ \/ SetX \/ Meth \/ Get \/ Exec \/ Emit
Fresh == cache # Nil => cache = <<CircOf(a)>>
\* all settings matter: different settings (with layers) have different circuits
ASSUME \A b, c \in [L : 1..2, q : 1..2, x : 0..1, y : 0..1] : b # c => CircOf(b) # CircOf(c)
\* binding uses each value once, in the order of the symbols
ASSUME \A b \in [L : 0..2, q : 1..2, x : 0..1, y : 0..1] :
         LET c == CircOf(b) o == SortedOf(c, Names, <<>>) IN
         Len(o) = Cardinality(SymsOf(c)) /\ SymsOf(BindA(c, o, [i \in 1..Len(o) |-> i])) = {}
Cached == ~dirty <=> cache # Nil
=============================================================================
