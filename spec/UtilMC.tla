------------------------------ MODULE UtilMC ------------------------------
EXTENDS Util
CONSTANTS Vs, MaxN
VARIABLES st, last
CallsIn(s) == {c \in Calls(s, Vs, MaxN) : Legal(c, MaxN)}
Within(s) == TRUE
INSTANCE Explore WITH StepOp <- Step, Start <- Start0
Inv == Len(st.i[1]) = 1 /\ Len(st.i[2]) = 1
=============================================================================
