------------------------------- MODULE Dict -------------------------------
(***************************************************************************)
(* ttl::map and ttl::set: dictionaries with unique keys ordered by a       *)
(* comparator (Order: LT or GT).  Tokens are <<id, key, mapped value>>;    *)
(* a set is a dictionary whose mapped values are all 0.  An instance is    *)
(* the sequence of its tokens in comparator order.                         *)
(*                                                                         *)
(* With Shapes = TRUE hidden state h = <<tree of a, tree of b>> follows    *)
(* the search tree's structure (LLRB), so that exploration distinguishes   *)
(* equal contents in differently shaped trees.                             *)
(***************************************************************************)
EXTENDS Common
CONSTANTS Order, IsSet, Shapes, Cursor

KeyBefore(x, y) == Less(Order, x, y)
T == INSTANCE LLRB WITH Before_ <- KeyBefore, Careful <- TRUE

A(st) == st.i[1]
B(st) == st.i[2]
K(t) == t[2]
M(t) == t[3]
Start0 == [i |-> <<<<>>, <<>>>>, x |-> IF Cursor THEN <<0, 0>> ELSE <<>>]
Init0 == IF Shapes THEN Start0 @@ [h |-> <<T!Nil, T!Nil>>] ELSE Start0

Mapped(v) == IF IsSet THEN 0 ELSE v
\* Number of elements whose key comes before k / does not come after k.
Lower(q, k) == Cardinality({n \in 1..Len(q) : KeyBefore(K(q[n]), k)})
Upper(q, k) == Cardinality({n \in 1..Len(q) : ~KeyBefore(k, K(q[n]))})
Has(q, k) == Lower(q, k) < Upper(q, k)
At(q, k) == q[Lower(q, k) + 1]
Find(q, k) == IF Has(q, k) THEN Lower(q, k) ELSE Len(q)

Put(st, k, v) == IF Has(A(st), k) THEN st
                 ELSE [st EXCEPT !.i[1] = InsertAt(@, Lower(@, k), <<<<Fresh(st), k, Mapped(v)>>>>)]
RECURSIVE PutAll(_, _)
PutAll(st, kvs) == IF kvs = <<>> THEN st ELSE PutAll(Put(st, kvs[1], kvs[2]), SubSeq(kvs, 3, Len(kvs)))
\* Keys f, f + d, f + 2d, ... (n of them, d # 0), in comparator order.
RunKeys(f, d, n) == IF KeyBefore(f + d, f) THEN [j \in 1..n |-> f + (n - j) * d] ELSE [j \in 1..n |-> f + (j - 1) * d]
InRun(k, f, d, n) == LET e == IF d > 0 THEN k - f ELSE f - k
                         s == IF d > 0 THEN d ELSE -d
                     IN e >= 0 /\ e % s = 0 /\ e \div s < n
KeySet(q) == {K(q[n]) : n \in 1..Len(q)}
\* Of neighbours with equal keys only the first.
Firsts(q) == SE!FoldLeft(LAMBDA kept, t : IF kept # <<>> /\ K(kept[Len(kept)]) = K(t) THEN kept ELSE Append(kept, t), <<>>, q)
FreshOf(f, ks, v) == [j \in 1..Len(ks) |-> <<f + j - 1, ks[j], v>>]
\* Merging new elements (in order) into q, after the equivalent ones.
Blend(st, q, ks, v) == Merge(Order, q, FreshOf(Fresh(st), ks, Mapped(v)))
Copy(st, q) == LET f == Fresh(st) IN [n \in 1..Len(q) |-> <<f + n - 1, K(q[n]), M(q[n])>>]
Just(s) == {Out(<<>>, s)}

Base(c, st) ==
  LET as == c.args
      q == A(st)
  IN CASE c.op = "insert"    -> {Out(<<Lower(q, as[1]), Bit(~Has(q, as[1]))>>, Put(st, as[1], as[2]))}
       [] c.op = "insertr"   -> Just(PutAll(st, as))
       \* many keys at once; reply: how many were added, taken out
       [] c.op = "insert_run" -> {Out(<<Len(new) - Len(q)>>, [st EXCEPT !.i[1] = new]) :
                                    new \in {Firsts(b) : b \in {Blend(st, q, ks, as[4]) : ks \in {RunKeys(as[1], as[2], as[3])}}}}
       [] c.op = "erase_run" -> {Out(<<Len(q) - Len(rest)>>, [st EXCEPT !.i[1] = rest]) :
                                   rest \in {SelectSeq(q, LAMBDA t : ~InRun(K(t), as[1], as[2], as[3]))}}
       [] c.op = "index"     -> LET s == Put(st, as[1], 0) IN {Out(<<M(At(A(s), as[1]))>>, s)}
       [] c.op = "index_set" -> LET s == Put(st, as[1], 0) IN Just([s EXCEPT !.i[1][Lower(A(s), as[1]) + 1][3] = as[2]])
       [] c.op = "erase"     -> {Out(<<Bit(Has(q, as[1]))>>, [st EXCEPT !.i[1] = RemoveRange(q, Lower(q, as[1]), Upper(q, as[1]))])}
       \* the argument refers to element as[1] of a itself
       [] c.op = "erase_self" -> {Out(<<1>>, [st EXCEPT !.i[1] = RemoveRange(q, as[1], as[1] + 1)])}
       [] c.op = "insert_self" -> {Out(<<as[1], 0>>, st)}
       [] c.op = "write"     -> Just([st EXCEPT !.i[1][as[1] + 1][3] = as[2]])
       [] c.op = "clear"     -> Just([st EXCEPT !.i[1] = <<>>])
       [] c.op = "ctor"      -> Just([st EXCEPT !.i[1] = <<>>])
       [] c.op = "ctorr"     -> Just([st EXCEPT !.i[1] = Copy(st, A(PutAll([st EXCEPT !.i[1] = <<>>], as)))])
       [] c.op = "copy_ctor" -> Just([st EXCEPT !.i[2] = Copy(st, q)])
       [] c.op = "recopy"    -> Just([st EXCEPT !.i[1] = Copy(st, q)])
       [] c.op = "assign_ab" -> Just([st EXCEPT !.i[1] = Copy(st, B(st))])
       [] c.op = "assign_ba" -> Just([st EXCEPT !.i[2] = Copy(st, q)])
       [] c.op = "assign_self" -> Just(st)
       [] c.op = "eq"        -> {Out(Compare(q, B(st)), st)}
       \* every lookup for one key: find, count, lower_bound, upper_bound, equal_range
       [] c.op = "look"      -> {Out(<<Find(q, as[1]), Bit(Has(q, as[1])), Lower(q, as[1]), Upper(q, as[1]), Lower(q, as[1]), Upper(q, as[1])>>, st)}
       [] c.op = "at"        -> {Out(<<M(At(q, as[1]))>>, st)}
       [] c.op = "place"     -> Just([st EXCEPT !.x = as])
       \* next and prev reply the key arrived at (-1: the end)
       [] c.op = "next"      -> LET s == [st EXCEPT !.x[2] = @ + 1] IN {Out(<<IF AtEnd(s) THEN -1 ELSE K(s.i[s.x[1]][s.x[2] + 1])>>, s)}
       [] c.op = "prev"      -> LET s == [st EXCEPT !.x[2] = @ - 1] IN {Out(<<K(s.i[s.x[1]][s.x[2] + 1])>>, s)}

Reborn(c) == CASE c.op \in {"ctor", "ctorr", "recopy"} -> {1} [] c.op = "copy_ctor" -> {2} [] OTHER -> {}
Positioning == {"place", "next", "prev"}

RECURSIVE Plant(_, _)
Plant(t, ks) == IF ks = <<>> THEN t ELSE Plant(T!InsertTree(t, Head(ks)), Tail(ks))
RECURSIVE NewKeys(_, _)
NewKeys(q, kvs) == \* the keys of kvs that insertion will add, in order
  IF kvs = <<>> THEN <<>>
  ELSE LET rest == NewKeys(q \o <<<<0, kvs[1], 0>>>>, SubSeq(kvs, 3, Len(kvs)))
       IN IF \E n \in 1..Len(q) : K(q[n]) = kvs[1] THEN rest ELSE <<kvs[1]>> \o rest
Trees(c, st) ==
  LET as == c.args
      q == A(st)
      t == st.h[1]
  IN CASE c.op \in {"insert", "index", "index_set"} -> <<IF Has(q, as[1]) THEN t ELSE T!InsertTree(t, as[1]), st.h[2]>>
       [] c.op = "insertr" -> <<Plant(t, NewKeys(q, as)), st.h[2]>>
       [] c.op = "erase" -> <<T!RemoveTree(t, as[1]), st.h[2]>>
       [] c.op = "erase_self" -> <<T!RemoveTree(t, K(q[as[1] + 1])), st.h[2]>>
       [] c.op \in {"clear", "ctor"} -> <<T!Nil, st.h[2]>>
       [] c.op = "ctorr" -> <<Plant(T!Nil, NewKeys(<<>>, as)), st.h[2]>>
       [] c.op \in {"copy_ctor", "assign_ba"} -> <<t, t>>
       [] c.op = "assign_ab" -> <<st.h[2], st.h[2]>>
       [] OTHER -> st.h

Step(c, st) ==
  LET b == IF ~Cursor \/ c.op \in Positioning THEN Base(c, st)
           ELSE {Out(o.r, Follow(st, o.s, Reborn(c))) : o \in Base(c, st)}
  IN IF ~Shapes THEN b ELSE {Out(o.r, [o.s EXCEPT !.h = Trees(c, st)]) : o \in b}

-----------------------------------------------------------------------------
\* Ks: keys inserted, Ls: keys looked up, Vs: mapped values, MaxR: range lengths;
\* Brief leaves out what does not depend on the tree's shape.
RECURSIVE PairsOf(_, _, _)
PairsOf(Ks, Vs, n) == IF n = 0 THEN {<<>>} ELSE {<<k, v>> \o r : k \in Ks, v \in Vs, r \in PairsOf(Ks, Vs, n - 1)}
Calls(st, Ks, Ls, Vs, MaxR, Brief) ==
  LET q == A(st)
      n == Len(q)
      m == Len(B(st))
      idx == 0..(n - 1)
      keys == {K(q[j]) : j \in 1..n}
      ranges == UNION {PairsOf(Ks, Vs, j) : j \in 0..MaxR}
  IN {Call("insert", <<k, v>>) : k \in Ks, v \in Vs}
     \cup {Call("erase", <<k>>) : k \in Ls}
     \cup {Call("look", <<k>>) : k \in Ls}
     \cup {Call("recopy", <<>>), Call("clear", <<>>)}
     \cup (IF IsSet \/ Brief THEN {} ELSE
             {Call("index", <<k>>) : k \in Ks} \cup {Call("index_set", <<k, v>>) : k \in Ks, v \in Vs}
             \cup {Call("at", <<k>>) : k \in keys} \cup {Call("write", <<p, v>>) : p \in idx, v \in Vs})
     \cup (IF Brief THEN {} ELSE
             {Call(o, <<p>>) : o \in {"erase_self", "insert_self"}, p \in idx}
             \cup {Call("insertr", r) : r \in ranges} \cup {Call("ctorr", r) : r \in ranges}
             \cup {Call(o, <<>>) : o \in {"ctor", "copy_ctor", "assign_ab", "assign_ba", "assign_self"}})
     \* (sets of another order than < have no ==)
     \cup (IF Brief \/ (IsSet /\ Order # LT) THEN {} ELSE {Call("eq", <<>>)})
     \cup IF ~Cursor THEN {} ELSE
          {Call("place", <<1, p>>) : p \in 0..n} \cup {Call("place", <<2, p>>) : p \in 0..m}
          \cup IF ~Valid(st) THEN {} ELSE
               (IF AtEnd(st) THEN {} ELSE {Call("next", <<j>>) : j \in 0..1})
               \cup (IF st.x[2] = 0 THEN {} ELSE {Call("prev", <<j>>) : j \in 0..1})
=============================================================================
