------------------------------ MODULE SListMC ------------------------------
EXTENDS SList
CONSTANTS MaxA, MaxB, Vs, MaxN, MaxR, MaxKept
VARIABLES st, last
CallsIn(s) == {c \in Calls(s, Vs, MaxN, MaxR) : Legal(c, s)}
Within(s) == /\ Len(s.i[1]) <= MaxA /\ Len(s.i[2]) <= MaxB
             /\ Lazy => s.h[1] <= MaxKept /\ s.h[2] <= MaxKept
INSTANCE Explore WITH StepOp <- Step, Start <- Init0

\* No node is ever lost: each was allocated, and is held, kept or given back.
Inv == UniqueIds(st) /\ (Lazy => st.h[1] >= 0 /\ st.h[2] >= 0)
=============================================================================
