------------------------------- MODULE VMaps -------------------------------
(***************************************************************************)
(* The array-backed dictionaries: Kind = "sorted" is                       *)
(* ttl::sorted_vector_map (unique keys in comparator order), Kind =        *)
(* "vector" is ttl::vector_map (a vector of pairs in insertion order with  *)
(* dictionary operations on top, keys unique only as far as the            *)
(* dictionary operations are used).                                        *)
(*                                                                         *)
(* With Shapes = TRUE hidden state h = <<capacity of a, of b>> follows the *)
(* storage of a sorted_vector_map, so that insertions are explored with    *)
(* and without growth, from every preallocation.                           *)
(***************************************************************************)
EXTENDS Dict
CONSTANT Kind

Caps0 == IF Shapes THEN Start0 @@ [h |-> <<0, 0>>] ELSE Start0
FirstOf(q, k) == IF \E n \in 1..Len(q) : K(q[n]) = k THEN (CHOOSE n \in 1..Len(q) : K(q[n]) = k /\ \A m \in 1..(n - 1) : K(q[m]) # k) - 1 ELSE Len(q)
CountOf(q, k) == Cardinality({n \in 1..Len(q) : K(q[n]) = k})
One(st, k, v) == <<<<Fresh(st), k, v>>>>

SortedBase(c, st) ==
  LET as == c.args
      q == A(st)
  IN CASE c.op \in {"ctorp", "ctor"} -> Just([st EXCEPT !.i[1] = <<>>])   \* ctorp: with room for as[1] elements
       \* find, count, lower_bound, upper_bound, equal_range; an empty range may be anywhere
       [] c.op = "look"  -> LET p == Lower(q, as[1]) IN
                            {Out(<<Find(q, as[1]), Bit(Has(q, as[1])), p, Upper(q, as[1])>> \o (IF Has(q, as[1]) THEN <<p, p + 1>> ELSE <<-1, -1>>), st)}
       [] OTHER -> Base(c, st)  \* insert, index, index_set, insert_self, write, clear, copy_ctor, recopy, at

VectorBase(c, st) ==
  LET as == c.args
      q == A(st)
      k == as[1]
      p == FirstOf(q, as[1])
      end == Len(q)
  IN CASE c.op = "insert"    -> IF p < end THEN {Out(<<p, 0>>, st)} ELSE {Out(<<end, 1>>, [st EXCEPT !.i[1] = @ \o One(st, k, as[2])])}
       [] c.op = "index"     -> IF p < end THEN {Out(<<M(q[p + 1])>>, st)} ELSE {Out(<<0>>, [st EXCEPT !.i[1] = @ \o One(st, k, 0)])}
       [] c.op = "index_set" -> IF p < end THEN Just([st EXCEPT !.i[1][p + 1][3] = as[2]]) ELSE Just([st EXCEPT !.i[1] = @ \o One(st, k, as[2])])
       [] c.op = "insert_run" -> LET have == KeySet(q)
                                     r == [j \in 1..as[3] |-> k + (j - 1) * as[2]]
                                     new == SelectSeq(r, LAMBDA x : x \notin have)
                                     f == Fresh(st)
                                 IN {Out(<<Len(new)>>, [st EXCEPT !.i[1] = @ \o [j \in 1..Len(new) |-> <<f + j - 1, new[j], as[4]>>]])}
       [] c.op = "insert_self" -> {Out(<<FirstOf(q, K(q[k + 1])), 0>>, st)}
       [] c.op = "at"        -> {Out(<<M(q[p + 1])>>, st)}
       [] c.op = "look"      -> {Out(<<p, CountOf(q, k)>>, st)}
       \* through the vector interface
       [] c.op = "push_back" -> Just([st EXCEPT !.i[1] = @ \o One(st, k, as[2])])
       [] c.op = "vinsert"   -> {Out(<<k>>, [st EXCEPT !.i[1] = InsertAt(@, k, One(st, as[2], as[3]))])}
       [] c.op = "erase1"    -> {Out(<<k>>, [st EXCEPT !.i[1] = RemoveRange(@, k, k + 1)])}
       [] c.op = "eraser"    -> {Out(<<k>>, [st EXCEPT !.i[1] = RemoveRange(@, k, as[2])])}
       [] c.op = "pop_back"  -> Just([st EXCEPT !.i[1] = Before(@, end - 1)])
       [] c.op = "resize"    -> Just([st EXCEPT !.i[1] = IF k <= end THEN Before(@, k) ELSE @ \o [n \in 1..(k - end) |-> <<Fresh(st) + n - 1, 0, 0>>]])
       [] c.op = "reserve"   -> Just(st)
       [] c.op = "swap"      -> Just([st EXCEPT !.i = <<st.i[2], st.i[1]>>])
       [] c.op = "setkey"    -> Just([st EXCEPT !.i[1][k + 1][2] = as[2]])
       [] OTHER -> Base(c, st)  \* write, clear, ctor, copy_ctor, recopy

Grown(cap) == Max2(2, cap + cap \div 2)
CapsAfter(c, st, ns) ==
  LET cap == st.h[1]
  IN CASE c.op = "ctorp" -> <<c.args[1], st.h[2]>>
       [] c.op = "ctor" -> <<0, st.h[2]>>
       [] c.op = "copy_ctor" -> <<cap, cap>>
       [] OTHER -> <<IF Len(A(ns)) > cap THEN Grown(cap) ELSE cap, st.h[2]>>
VStep(c, st) ==
  LET b == IF Kind = "sorted" THEN SortedBase(c, st) ELSE VectorBase(c, st)
  IN IF ~Shapes THEN b ELSE {Out(o.r, [o.s EXCEPT !.h = CapsAfter(c, st, o.s)]) : o \in b}

-----------------------------------------------------------------------------
VCalls(st, Ks, Ls, Vs, MaxA, MaxP) ==
  LET q == A(st)
      n == Len(q)
      idx == 0..(n - 1)
      keys == {K(q[j]) : j \in 1..n}
  IN {Call(o, <<k, v>>) : o \in {"insert", "index_set"}, k \in Ks, v \in Vs}
     \cup {Call("index", <<k>>) : k \in Ks} \cup {Call("look", <<k>>) : k \in Ls} \cup {Call("at", <<k>>) : k \in keys}
     \cup {Call("write", <<p, v>>) : p \in idx, v \in Vs} \cup {Call("insert_self", <<p>>) : p \in idx}
     \cup {Call(o, <<>>) : o \in {"clear", "ctor", "copy_ctor", "recopy"}}
     \cup IF Kind = "sorted" THEN {Call("ctorp", <<p>>) : p \in 0..MaxP}
          ELSE {Call("push_back", <<k, v>>) : k \in Ks, v \in Vs} \cup {Call("vinsert", <<p, k, v>>) : p \in 0..n, k \in Ks, v \in Vs}
               \cup {Call("erase1", <<p>>) : p \in idx} \cup {Call("eraser", <<r[1], r[2]>>) : r \in {x \in (0..n) \X (0..n) : x[1] <= x[2]}}
               \cup (IF n = 0 THEN {} ELSE {Call("pop_back", <<>>)}) \cup {Call("resize", <<m>>) : m \in 0..MaxA} \cup {Call("reserve", <<m>>) : m \in {0, n, n + 1}}
               \cup {Call("swap", <<>>)} \cup {Call("setkey", <<p, k>>) : p \in idx, k \in Ks}
=============================================================================
