------------------------------ MODULE VMapsMC ------------------------------
EXTENDS VMaps
CONSTANTS MaxA, MaxB, Ks, Ls, Vs, MaxP
VARIABLES st, last
CallsIn(s) == VCalls(s, Ks, Ls, Vs, MaxA, MaxP)
Within(s) == Len(s.i[1]) <= MaxA /\ Len(s.i[2]) <= MaxB
INSTANCE Explore WITH StepOp <- VStep, Start <- Caps0

Ordered(q) == \A n \in 1..(Len(q) - 1) : KeyBefore(K(q[n]), K(q[n + 1]))
Inv == /\ UniqueIds(st)
       /\ Kind = "sorted" => Ordered(A(st)) /\ Ordered(B(st))
       /\ Shapes => \A w \in 1..2 : Len(st.i[w]) <= st.h[w]
=============================================================================
