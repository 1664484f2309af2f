----------------------------- MODULE VectorMC -----------------------------
EXTENDS Vector
CONSTANTS MaxA, MaxB, Vs, MaxN, MaxR
VARIABLES st, last
CallsIn(s) == {c \in Calls(s, Vs, MaxN, MaxR) : Legal(c, s)}
Within(s) == Len(s.i[1]) <= MaxA /\ Len(s.i[2]) <= MaxB
INSTANCE Explore WITH StepOp <- Step, Start <- Init0

Inv == UniqueIds(st) /\ (Bounded => Len(A(st)) <= N /\ Len(B(st)) <= N)
=============================================================================
