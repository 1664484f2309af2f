------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* ttl's type traits.  A type is a TERM: <<base, layer, layer, ...>>, the  *)
(* layers applied from the inside out.  Behaviours build types layer by    *)
(* layer; the traits are functions of the term.                            *)
(*                                                                         *)
(* Bases: 0 void; 1 bool; 2 char; 3 wchar_t; 4..8 signed char, short, int, *)
(* long, long long; 9..13 the same unsigned; 14..16 float, double, long    *)
(* double; 17 a class; 18 a union; 19 an enum; 20 an enum class.           *)
(***************************************************************************)
EXTENDS Common, Json
CONSTANTS Bases, Depth,
          SignedChar, SignedWide \* what the compiler makes of char and wchar_t
VARIABLES t, prev

Const == 101
Vol == 102
Ptr == 103
Lref == 104
Rref == 105
Arr == 106    \* of unknown bound
Arr2 == 107   \* of two

Last(x) == x[Len(x)]
Rest(x) == SubSeq(x, 1, Len(x) - 1)
IsRef(x) == Last(x) \in {Lref, Rref}
IsArr(x) == Last(x) \in {Arr, Arr2}
IsPtr(x) == Last(x) = Ptr

\* cv-qualification at the top; an array is as qualified as its elements.
RECURSIVE Quals(_)
Quals(x) == IF Len(x) = 1 THEN {}
            ELSE IF Last(x) \in {Const, Vol} THEN {Last(x)} \cup Quals(Rest(x))
            ELSE IF IsArr(x) THEN Quals(Rest(x)) ELSE {}
\* Without the qualifications in Q at the top.
RECURSIVE Drop(_, _)
Drop(x, Q) == IF Len(x) = 1 THEN x
              ELSE IF Last(x) \in {Const, Vol}
                   THEN IF Last(x) \in Q THEN Drop(Rest(x), Q) ELSE Append(Drop(Rest(x), Q), Last(x))
              ELSE IF IsArr(x) THEN Append(Drop(Rest(x), Q), Last(x)) ELSE x
Unref(x) == IF IsRef(x) THEN Rest(x) ELSE x
\* One term for each type: qualification inside arrays, const before volatile.
RECURSIVE Push(_, _)
Push(y, q) == IF IsArr(y) THEN Append(Push(Rest(y), q), Last(y))
              ELSE (IF Const \in q THEN Append(y, Const) ELSE y) \o (IF Vol \in q THEN <<Vol>> ELSE <<>>)
Canon(x) ==
  LET C[k \in 1..Len(x)] ==
        IF k = 1 THEN <<x[1]>>
        ELSE IF x[k] \in {Const, Vol}
             THEN Push(Drop(C[k - 1], {Const, Vol}), Quals(C[k - 1]) \cup {x[k]})
             ELSE Append(C[k - 1], x[k])
  IN C[Len(x)]

Legal(x, y) ==
  CASE y \in {Const, Vol} -> ~IsRef(x) /\ y \notin Quals(x)
    [] y = Ptr -> ~IsRef(x)
    [] y \in {Lref, Rref} -> ~IsRef(x) /\ Drop(x, {Const, Vol}) # <<0>>
    [] y \in {Arr, Arr2} -> ~IsRef(x) /\ Last(x) # Arr /\ Drop(x, {Const, Vol}) # <<0>> /\ Drop(x, {Const, Vol})[Len(Drop(x, {Const, Vol}))] # Arr

\* The type without qualification, if it is one of the bases, else -1.
Bare(x) == LET b == Drop(x, {Const, Vol}) IN IF Len(b) = 1 THEN b[1] ELSE -1

IsVoid(x) == Bare(x) = 0
IsIntegral(x) == Bare(x) \in 1..13
IsFloating(x) == Bare(x) \in 14..16
IsPointer(x) == IsPtr(Drop(x, {Const, Vol}))
SignedOnes == 4..8 \cup (IF SignedChar THEN {2} ELSE {}) \cup (IF SignedWide THEN {3} ELSE {})
UnsignedOnes == (2..13) \ SignedOnes
Traits(x) == <<Const \in Quals(x), Vol \in Quals(x), IsVoid(x), IsIntegral(x), IsFloating(x),
               IsIntegral(x) \/ IsFloating(x), IsIntegral(x) \/ IsFloating(x) \/ IsVoid(x),
               IsPointer(x), IsIntegral(x) \/ IsFloating(x) \/ IsPointer(x), IsArr(x) \/ IsArr(Drop(x, {Const, Vol})),
               Bare(x) \in SignedOnes, Bare(x) \in UnsignedOnes>>

Init == t \in {<<b>> : b \in Bases} /\ prev = t
Next == /\ Len(t) <= Depth
        /\ \E y \in Const..Arr2 : Legal(t, y) /\ t' = Append(t, y) /\ prev' = t
Spec == Init /\ [][Next]_<<t, prev>>

\* What the traits must say of t: values, then the types of remove_const,
\* remove_volatile, remove_cv, remove_reference, then whether it is the same
\* type as: without its last layer; without qualifications; its canonical term
\* (always); const; volatile; the referred to.
Row == [t |-> t, v |-> Traits(t), rc |-> Drop(t, {Const}), rv |-> Drop(t, {Vol}), rcv |-> Drop(t, {Const, Vol}), rr |-> Unref(t), canon |-> Canon(t),
        same |-> <<<<prev, Canon(prev) = Canon(t)>>, <<Drop(t, {Const, Vol}), Canon(Drop(t, {Const, Vol})) = Canon(t)>>,
                   <<[t EXCEPT ![1] = IF @ = 20 THEN 1 ELSE @ + 1], FALSE>>>>]

Inv == /\ Canon(Canon(t)) = Canon(t)
       /\ Quals(Canon(t)) = Quals(t)
       /\ Quals(Drop(t, {Const, Vol})) = {}
       /\ Traits(Canon(t)) = Traits(t)
       /\ ~IsRef(Unref(t))
       \* never two of void, integral, floating, pointer, array, reference
       /\ Cardinality({k \in 1..6 : <<IsVoid(t), IsIntegral(t), IsFloating(t), IsPointer(t), IsArr(t), IsRef(t)>>[k]}) <= 1
=============================================================================
