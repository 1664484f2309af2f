------------------------------ MODULE TreeMC ------------------------------
EXTENDS Tree
CONSTANTS MaxA, MaxB, Ks, Ls, Vs, Brief
VARIABLES st, last
CallsIn(s) == TreeCalls(s, Ks, Ls, Vs, Brief)
Within(s) == Len(s.i[1]) <= MaxA /\ Len(s.i[2]) <= MaxB
INSTANCE Explore WITH StepOp <- TreeStep, Start <- Init0

Ordered(q) == \A n \in 1..(Len(q) - 1) : ~KeyBefore(K(q[n + 1]), K(q[n]))
KeysOf(q) == [n \in 1..Len(q) |-> K(q[n])]
Inv == /\ UniqueIds(st)
       /\ Ordered(A(st)) /\ Ordered(B(st))
TreeInv == Shapes => \A w \in 1..2 :
             /\ T!RedBlack(st.h[w])
             /\ T!Inorder(st.h[w]) = KeysOf(st.i[w])
             /\ T!Shallow(st.h[w], Len(st.i[w]))
=============================================================================
