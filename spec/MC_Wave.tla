------------------------------ MODULE MC_Wave --------------------------------
(* Every short history of assignments, slice assignments and bindings on a   *)
(* one-qubit or two-qubit wavefunction, accepted or rejected.                *)
EXTENDS Wave, Json
CONSTANTS MaxLen
VARIABLES w, hist
vars == <<w, hist>>
Half == RHalf
A35 == <<3,0,0,0,0,1>>
A45 == <<0,0,4,0,0,1>>
Ents == {EN(RZero), EN(ROne), EN(A35), EN(A45), ES(1)}
Starts == { <<EN(ROne), EN(RZero)>>, <<EN(A35), EN(A45)>>, <<ES(1), EN(RHalf)>>, <<ES(1), ES(2)>>,
            <<ES(1), EN(RHalf), EN(RZero), ES(2)>>, <<EN(RZero), EN(RZero), EN(A45), EN(A35)>> }
Init == w \in {s \in Starts : Legal(s)} /\ hist = <<[op |-> "new", w |-> w]>>
Try(w2, e) == /\ w' = IF Legal(w2) /\ (Symbolic(w) \/ ~Symbolic(w2)) THEN w2 ELSE w
              /\ hist' = Append(hist, e)
SetOne == \E i \in 1..Len(w) : \E e \in Ents : Try(WSet(w, i, e), [op |-> "set", i |-> i, e |-> e])
SetTwo == \E i \in 1..Len(w)-1 : \E e \in Ents, f \in {EN(RZero), EN(A45), EN(ROne)} :
             Try(WSets(w, <<i, i+1>>, <<e, f>>), [op |-> "slice", i |-> i, es |-> <<e, f>>])
Binds == { << <<1, EN(A45)>> >>, << <<1, EN(ROne)>> >>, << <<1, EN(A35)>>, <<2, EN(A45)>> >>, << <<2, EN(RZero)>> >> }
Bind == Symbolic(w) /\ \E m \in Binds : Try(WBind(w, m), [op |-> "bind", m |-> m])
DoFlip == w' = Flip(w) /\ hist' = Append(hist, [op |-> "flip"])
Next == Len(hist) < MaxLen /\ (SetOne \/ SetTwo \/ Bind \/ DoFlip)
AlwaysLegal == Legal(w)
FlipTwice == Flip(Flip(w)) = w
StaysNumeric == [][~Symbolic(w) => ~Symbolic(w')]_vars
EmitInv == Len(hist) = MaxLen => PrintT("GEN:" \o ToJson(hist))
=============================================================================
