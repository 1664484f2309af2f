------------------------------- MODULE Tree -------------------------------
(***************************************************************************)
(* ttl::rbtree used directly: an ordered multiset.  Tokens are             *)
(* <<id, key, payload>>, so that equal keys can be told apart.  The order  *)
(* of equal keys is the order of insertion; which element of a run of      *)
(* equal ones a removal or a search picks is left open.                    *)
(***************************************************************************)
EXTENDS Dict

RunOf(q, k) == Lower(q, k)..(Upper(q, k) - 1)
PutEqual(st, k, v) == [st EXCEPT !.i[1] = InsertAt(@, Upper(@, k), <<<<Fresh(st), k, v>>>>)]
RECURSIVE PutEach(_, _)
PutEach(st, kvs) == IF kvs = <<>> THEN st ELSE PutEach(PutEqual(st, kvs[1], kvs[2]), SubSeq(kvs, 3, Len(kvs)))

TreeBase(c, st) ==
  LET as == c.args
      q == A(st)
  IN CASE c.op = "insert_equal"  -> {Out(<<Upper(q, as[1])>>, PutEqual(st, as[1], as[2]))}
       [] c.op = "insert_each"   -> Just(PutEach(st, as))
       [] c.op = "insert_run"    -> Just([st EXCEPT !.i[1] = Blend(st, q, RunKeys(as[1], as[2], as[3]), as[4])])
       [] c.op = "insert_unique" -> IF Has(q, as[1]) THEN {Out(<<p, 0>>, st) : p \in RunOf(q, as[1])}
                                    ELSE {Out(<<Lower(q, as[1]), 1>>, PutEqual(st, as[1], as[2]))}
       \* reply: the payload of the element taken out, -1 if none
       [] c.op = "remove"        -> IF Has(q, as[1])
                                    THEN {Out(<<M(q[p + 1])>>, [st EXCEPT !.i[1] = RemoveRange(q, p, p + 1)]) : p \in RunOf(q, as[1])}
                                    ELSE {Out(<<-1>>, st)}
       \* every element with one of the keys; reply: their number
       [] c.op = "erase_run"     -> Base(c, st)
       [] c.op = "clear"         -> Just([st EXCEPT !.i[1] = <<>>])
       [] c.op = "ctor"          -> Just([st EXCEPT !.i[1] = <<>>])
       [] c.op = "assign_ab"     -> Just([st EXCEPT !.i[1] = Copy(st, B(st))])
       [] c.op = "assign_ba"     -> Just([st EXCEPT !.i[2] = Copy(st, q)])
       \* find, count, lower_bound, upper_bound, equal_range
       [] c.op = "look"          -> LET k == as[1]
                                        lo == Lower(q, k)
                                        hi == Upper(q, k)
                                    IN {Out(<<p, hi - lo, lo, hi, lo, hi>>, st) : p \in IF Has(q, k) THEN RunOf(q, k) ELSE {Len(q)}}
       [] OTHER                  -> Base(c, st)      \* place, next, prev

TreeShapes(c, st) ==
  LET as == c.args
      t == st.h[1]
  IN CASE c.op = "insert_equal" -> <<T!InsertTree(t, as[1]), st.h[2]>>
       [] c.op = "insert_each" -> <<Plant(t, [j \in 1..(Len(as) \div 2) |-> as[2 * j - 1]]), st.h[2]>>
       [] c.op = "insert_unique" -> <<IF Has(A(st), as[1]) THEN t ELSE T!InsertTree(t, as[1]), st.h[2]>>
       [] c.op = "remove" -> <<T!RemoveTree(t, as[1]), st.h[2]>>
       [] c.op \in {"clear", "ctor"} -> <<T!Nil, st.h[2]>>
       [] c.op = "assign_ba" -> <<t, t>>
       [] c.op = "assign_ab" -> <<st.h[2], st.h[2]>>
       [] OTHER -> st.h

TreeReborn(c) == IF c.op = "ctor" THEN {1} ELSE {}
TreeStep(c, st) ==
  LET b == IF ~Cursor \/ c.op \in Positioning THEN TreeBase(c, st)
           ELSE {Out(o.r, Follow(st, o.s, TreeReborn(c))) : o \in TreeBase(c, st)}
  IN IF ~Shapes THEN b ELSE {Out(o.r, [o.s EXCEPT !.h = TreeShapes(c, st)]) : o \in b}

-----------------------------------------------------------------------------
TreeCalls(st, Ks, Ls, Vs, Brief) ==
  LET n == Len(A(st))
      m == Len(B(st))
  IN {Call(o, <<k, v>>) : o \in {"insert_equal", "insert_unique"}, k \in Ks, v \in Vs}
     \cup {Call("remove", <<k>>) : k \in Ls}
     \cup {Call("look", <<k>>) : k \in Ls}
     \cup {Call("clear", <<>>)}
     \cup (IF Brief THEN {} ELSE
             {Call(o, <<>>) : o \in {"ctor", "assign_ab", "assign_ba"}} \cup {Call("insert_each", <<k, v, k, v>>) : k \in Ks, v \in Vs})
     \cup IF ~Cursor THEN {} ELSE
          {Call("place", <<1, p>>) : p \in 0..n} \cup {Call("place", <<2, p>>) : p \in 0..m}
          \cup IF ~Valid(st) THEN {} ELSE
               (IF AtEnd(st) THEN {} ELSE {Call("next", <<0>>)})
               \cup (IF st.x[2] = 0 \/ AtEnd(st) THEN {} ELSE {Call("prev", <<0>>)})

-----------------------------------------------------------------------------
(***************************************************************************)
(* The recorded structure of the real trees: for each instance, 1 or 0 for *)
(* "every parent link mirrors a child link", then the nodes in preorder:   *)
(* 0 black, 1 red, 2 nothing there.                                        *)
(***************************************************************************)
NoTree == 2
\* <<black height or -1, nodes, height, next position>>
RECURSIVE Scan(_, _)
Scan(s, p) ==
  IF p > Len(s) THEN <<-1, 0, 0, p>>
  ELSE IF s[p] = NoTree THEN <<0, 0, 0, p + 1>>
  ELSE LET l == Scan(s, p + 1)
           r == Scan(s, l[4])
           redred == s[p] = 1 /\ (s[p + 1] = 1 \/ (l[4] <= Len(s) /\ s[l[4]] = 1))
       IN <<IF l[1] < 0 \/ l[1] # r[1] \/ redred THEN -1 ELSE l[1] + 1 - s[p], l[2] + r[2] + 1, 1 + Max2(l[3], r[3]), r[4]>>
Balanced(s, p, n) == LET t == Scan(s, p) IN t[1] >= 0 /\ s[p] # 1 /\ t[2] = n /\ (IF n < 40000 THEN T!Pow2(t[3]) <= (n + 1) * (n + 1) ELSE T!Pow2(t[3] \div 2) <= n + 1) \* (32-bit arithmetic)
GoodTrees(e) ==
  LET p2 == Scan(e.aux, 2)[4]
  IN /\ e.aux[1] = 1 /\ Balanced(e.aux, 2, Len(e.i[1]))
     /\ p2 < Len(e.aux) /\ e.aux[p2] = 1 /\ Balanced(e.aux, p2 + 1, Len(e.i[2]))
     /\ Scan(e.aux, p2 + 1)[4] = Len(e.aux) + 1
=============================================================================
