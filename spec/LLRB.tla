------------------------------- MODULE LLRB -------------------------------
(***************************************************************************)
(* The balanced search tree of rbtree.hpp: the red-black conditions, and   *)
(* the left-leaning insertion and removal algorithms as ttl performs them  *)
(* (top-down restructuring, bottom-up repair).                             *)
(*                                                                         *)
(* A tree is Nil or <<colour, left, key, right>>, colour 1 = red.  Where   *)
(* the code would lose or dereference something that is not there, the     *)
(* result is Broken, which no invariant accepts.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Before_(_, _),      \* the comparator
          Careful             \* FALSE: removal as it was before the repair of equal keys

Nil == <<>>
Broken == <<-1>>
Red == 1
Black == 0
IsRed(t) == t # Nil /\ t[1] = Red
Key(t) == t[3]
L(t) == t[2]
R(t) == t[4]
WithL(t, s) == <<t[1], s, t[3], t[4]>>
WithR(t, s) == <<t[1], t[2], t[3], s>>
Paint(t, c) == IF t = Nil THEN Nil ELSE <<c, t[2], t[3], t[4]>>

RotL(a) == LET b == R(a) IN <<a[1], <<Red, L(a), Key(a), L(b)>>, Key(b), R(b)>>
RotR(b) == LET a == L(b) IN <<b[1], L(a), Key(a), <<Red, R(a), Key(b), R(b)>>>>
Flip(t) == <<1 - t[1], Paint(L(t), 1 - L(t)[1]), Key(t), Paint(R(t), 1 - R(t)[1])>>
Fixup(t0) ==
  LET t1 == IF IsRed(R(t0)) /\ ~IsRed(L(t0)) THEN RotL(t0) ELSE t0
      t2 == IF IsRed(L(t1)) /\ IsRed(L(L(t1))) THEN RotR(t1) ELSE t1
  IN IF IsRed(L(t2)) /\ IsRed(R(t2)) THEN Flip(t2) ELSE t2

\* Insertion: <<tree, repair goes on>>; repair stops at the first node without
\* a red child.
RECURSIVE Ins(_, _)
Ins(t, k) ==
  IF t = Nil THEN <<<<Red, Nil, k, Nil>>, TRUE>>
  ELSE LET goleft == Before_(k, Key(t))
           sub == Ins(IF goleft THEN L(t) ELSE R(t), k)
           u == IF goleft THEN WithL(t, sub[1]) ELSE WithR(t, sub[1])
       IN IF sub[2] /\ (IsRed(L(u)) \/ IsRed(R(u))) THEN <<Fixup(u), TRUE>> ELSE <<u, FALSE>>
InsertTree(t, k) == Paint(Ins(t, k)[1], Black)

MoveLeft(t) ==
  LET p == Flip(t)
  IN IF IsRed(L(R(p))) THEN Flip(RotL(WithR(p, RotR(R(p))))) ELSE p
MoveRight(t) ==
  LET p == Flip(t)
  IN IF IsRed(L(L(p))) THEN Flip(RotR(p)) ELSE p

\* <<least key, rest>>
RECURSIVE DelMin(_)
DelMin(t) ==
  IF t = Nil THEN <<0, Broken>>
  ELSE IF L(t) = Nil THEN <<Key(t), IF R(t) = Nil THEN Nil ELSE Broken>>
  ELSE LET u == IF ~IsRed(L(t)) /\ ~IsRed(L(L(t))) THEN MoveLeft(t) ELSE t
           m == DelMin(L(u))
       IN <<m[1], IF m[2] = Broken THEN Broken ELSE Fixup(WithL(u, m[2]))>>

\* <<tree, removed>>
RECURSIVE Rem(_, _)
Rem(t, k) ==
  IF t = Nil THEN <<Nil, FALSE>>
  ELSE IF Before_(k, Key(t))
  THEN LET u == IF L(t) # Nil /\ ~IsRed(L(t)) /\ ~IsRed(L(L(t))) THEN MoveLeft(t) ELSE t
       IN IF L(u) = Nil THEN <<u, FALSE>>  \* absent: the last node is left as it is
          ELSE LET s == Rem(L(u), k)
               IN IF s[1] = Broken THEN s ELSE <<Fixup(WithL(u, s[1])), s[2]>>
  ELSE LET u == IF IsRed(L(t)) THEN RotR(t) ELSE t
       IN IF Key(u) = k /\ R(u) = Nil THEN <<IF L(u) = Nil THEN Nil ELSE Broken, TRUE>>
          ELSE LET borrow == R(u) # Nil /\ ~IsRed(R(u)) /\ ~IsRed(L(R(u)))
                   w == IF borrow THEN MoveRight(u) ELSE u
                   \* MoveRight rotated: u is now on the right, its left neighbour on
                   \* top, which must stay there even if it is equal
                   turned == borrow /\ IsRed(L(L(u)))
               IN IF Key(w) = k /\ ~(turned /\ Careful)
                  THEN LET m == DelMin(R(w))
                       IN IF m[2] = Broken THEN <<Broken, TRUE>>
                          ELSE <<Fixup(<<w[1], L(w), m[1], m[2]>>), TRUE>>
                  ELSE IF R(w) = Nil THEN <<w, FALSE>>
                  ELSE LET s == Rem(R(w), k)
                       IN IF s[1] = Broken THEN s ELSE <<Fixup(WithR(w, s[1])), s[2]>>
RemoveTree(t, k) == LET s == Rem(t, k) IN IF s[1] = Broken THEN Broken ELSE Paint(s[1], Black)

-----------------------------------------------------------------------------
(* The red-black conditions.                                               *)
RECURSIVE Inorder(_)
Inorder(t) == IF t = Nil THEN <<>> ELSE Inorder(L(t)) \o <<Key(t)>> \o Inorder(R(t))
\* Number of black nodes on every path, or -1 where paths differ or red meets red.
RECURSIVE BlackHeight(_)
BlackHeight(t) ==
  IF t = Nil THEN 0
  ELSE LET l == BlackHeight(L(t)) r == BlackHeight(R(t))
       IN IF l = -1 \/ l # r \/ (IsRed(t) /\ (IsRed(L(t)) \/ IsRed(R(t)))) THEN -1
          ELSE l + 1 - t[1]
RECURSIVE Height(_)
Height(t) == IF t = Nil THEN 0 ELSE 1 + LET l == Height(L(t)) r == Height(R(t)) IN IF l > r THEN l ELSE r
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* height <= 2 log2(n + 1), in integers
Shallow(t, n) == Pow2(Height(t)) <= (n + 1) * (n + 1)
RedBlack(t) == t # Broken /\ ~IsRed(t) /\ BlackHeight(t) >= 0
\* ... and what this algorithm keeps in addition: red links lean left.
RECURSIVE LeftLeaning(_)
LeftLeaning(t) == t = Nil \/ (~IsRed(R(t)) /\ LeftLeaning(L(t)) /\ LeftLeaning(R(t)))
=============================================================================
