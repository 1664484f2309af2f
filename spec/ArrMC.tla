------------------------------- MODULE ArrMC -------------------------------
EXTENDS Arr
CONSTANTS Vs
VARIABLES st, last
CallsIn(s) == Calls(s, Vs)
Within(s) == TRUE
INSTANCE Explore WITH StepOp <- Step, Start <- Start0
Inv == Len(st.i[1]) = N /\ Len(st.i[2]) = N /\ UniqueIds(st)
=============================================================================
