------------------------------ MODULE AlgoMC ------------------------------
EXTENDS Algo
CONSTANTS Groups, Vs, MaxN, MaxP, Edges
VARIABLES st, last
CallsIn(s) == LegalCalls(s, Groups, Vs, MaxN, MaxP, Edges)
\* generate may leave the set of values
Within(s) == \A k \in 1..Len(s.i[1]) : V(s.i[1][k]) \in Vs
INSTANCE Explore WITH StepOp <- Step, Start <- Start0
Inv == Len(st.i[1]) <= MaxN
\* The one-pass forms used on long ranges compute their definitions.
OnePass ==
  LET a == A(st) IN
  \A f \in 0..Len(a) : \A l \in f..Len(a) :
     /\ \A n \in 0..(Len(a) + 1), v \in Vs : RunPass(a, f, l, n, LAMBDA w : Eq(w, v)) = RunDef(a, f, l, n, LAMBDA w : Eq(w, v))
     /\ First(Slice(a, f, l), Lt, f) = FirstDef(Slice(a, f, l), Lt, f) /\ First(Slice(a, f, l), Gt, f) = FirstDef(Slice(a, f, l), Gt, f)
=============================================================================
