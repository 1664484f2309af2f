------------------------------ MODULE BitsMC ------------------------------
EXTENDS Bits
CONSTANTS Ms, MaxS
VARIABLES st, last
CallsIn(s) == Calls(s, Ms, MaxS)
Within(s) == TRUE
INSTANCE Explore WITH StepOp <- Step, Start <- Init0
Inv == \A w \in 1..2 : Len(st.i[w]) = N /\ \A k \in 1..N : st.i[w][k][2] \in 0..1
=============================================================================
