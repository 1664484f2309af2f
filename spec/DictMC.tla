------------------------------ MODULE DictMC ------------------------------
EXTENDS Dict
CONSTANTS MaxA, MaxB, Ks, Ls, Vs, MaxR, Brief
VARIABLES st, last
CallsIn(s) == Calls(s, Ks, Ls, Vs, MaxR, Brief)
Within(s) == Len(s.i[1]) <= MaxA /\ Len(s.i[2]) <= MaxB
INSTANCE Explore WITH StepOp <- Step, Start <- Init0

Ordered(q) == \A n \in 1..(Len(q) - 1) : KeyBefore(K(q[n]), K(q[n + 1]))
KeysOf(q) == [n \in 1..Len(q) |-> K(q[n])]
Inv == /\ UniqueIds(st)
       /\ Ordered(A(st)) /\ Ordered(B(st))
\* The tree algorithm keeps a red-black search tree with exactly the right keys.
TreeInv == Shapes => \A w \in 1..2 :
             /\ T!RedBlack(st.h[w])
             /\ T!Inorder(st.h[w]) = KeysOf(st.i[w])
             /\ T!Shallow(st.h[w], Len(st.i[w]))
             /\ T!LeftLeaning(st.h[w])
=============================================================================
