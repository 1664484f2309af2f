------------------------------ MODULE Vector ------------------------------
(***************************************************************************)
(* ttl::vector (Bounded = FALSE) and ttl::fixed_vector (Bounded = TRUE,    *)
(* capacity N).  Two instances: st.i = <<a, b>>.  Operations act on a; b   *)
(* takes part in copy, assignment and swap, and swap brings b's contents   *)
(* under all other operations.                                             *)
(*                                                                         *)
(* fixed_vector: an operation yields the first N elements of what it would *)
(* have produced on an unbounded vector.                                   *)
(***************************************************************************)
EXTENDS Common
CONSTANTS Bounded, N

A(st) == st.i[1]
B(st) == st.i[2]
Init0 == [i |-> <<<<>>, <<>>>>, x |-> <<>>]

\* A negative count stands for a huge one (that count modulo 2^64), which only
\* a bounded vector can take; more than N is as good as N + 1.
Cnt(n) == IF Bounded /\ (n < 0 \/ n > 2 * N) THEN 2 * N + 1 ELSE n
Cut(q) == IF Bounded /\ Len(q) > N THEN SubSeq(q, 1, N) ELSE q
SetA(st, q) == [st EXCEPT !.i[1] = Cut(q)]
SetAB(st, p, q) == [st EXCEPT !.i = <<p, q>>]

\* Insertion at p of values vs; the result designates position p.
Insert(st, p, vs) == {Out(<<p>>, SetA(st, InsertAt(A(st), p, New(st, vs))))}
Erase(st, f, l) == {Out(<<f>>, SetA(st, RemoveRange(A(st), f, l)))}
Become(st, vs) == {Out(<<>>, SetA(st, New(st, vs)))}
Resize(st, n, v) ==
  {Out(<<>>, SetA(st, IF n <= Len(A(st)) THEN Before(A(st), n)
                      ELSE A(st) \o New(st, Rep(n - Len(A(st)), v))))}

Step(c, st) ==
  LET as == c.args
      q == A(st)
  IN CASE c.op = "push_back"   -> {Out(<<>>, SetA(st, q \o New(st, <<as[1]>>)))}
       [] c.op = "pop_back"    -> {Out(<<>>, SetA(st, Before(q, Len(q) - 1)))}
       [] c.op = "insert1"     -> Insert(st, as[1], <<as[2]>>)
       [] c.op = "insertn"     -> Insert(st, as[1], Rep(Cnt(as[2]), as[3]))
       \* a range of values taken from outside
       [] c.op = "insertr"     -> Insert(st, as[1], Tail(as))
       [] c.op = "erase1"      -> Erase(st, as[1], as[1] + 1)
       [] c.op = "eraser"      -> Erase(st, as[1], as[2])
       [] c.op = "resize"      -> Resize(st, Cnt(as[1]), 0)
       [] c.op = "resizev"     -> Resize(st, Cnt(as[1]), as[2])
       [] c.op = "reserve"     -> {Out(<<>>, st)}
       [] c.op = "assignn"     -> Become(st, Rep(Cnt(as[1]), as[2]))
       [] c.op = "assignr"     -> Become(st, as)
       [] c.op = "clear"       -> Become(st, <<>>)
       [] c.op = "write"       -> {Out(<<>>, [st EXCEPT !.i[1][as[1] + 1][2] = as[2]])}
       \* constructors: a is destroyed and constructed anew
       [] c.op = "ctor"        -> Become(st, <<>>)
       [] c.op = "ctorn"       -> Become(st, Rep(Cnt(as[1]), 0))
       [] c.op = "ctornv"      -> Become(st, Rep(Cnt(as[1]), as[2]))
       [] c.op = "ctorr"       -> Become(st, as)
       \* copies
       [] c.op = "copy_ctor"   -> {Out(<<>>, SetAB(st, q, New(st, Vals(q))))}
       [] c.op = "assign_ab"   -> {Out(<<>>, SetAB(st, New(st, Vals(B(st))), B(st)))}
       [] c.op \in {"assign_self", "swap_self"} -> {Out(<<>>, st)}
       [] c.op = "eq"          -> {Out(Compare(q, B(st)), st)}
       [] c.op = "swap"        -> {Out(<<>>, SetAB(st, B(st), q))}
       \* arguments that refer into a itself: element at index as[1]
       [] c.op = "push_self"    -> {Out(<<>>, SetA(st, q \o New(st, <<V(q[as[1] + 1])>>)))}
       [] c.op = "insert_self"  -> Insert(st, as[2], <<V(q[as[1] + 1])>>)
       [] c.op = "insertn_self" -> Insert(st, as[2], Rep(Cnt(as[3]), V(q[as[1] + 1])))
       [] c.op = "resize_self"  -> Resize(st, Cnt(as[2]), V(q[as[1] + 1]))

-----------------------------------------------------------------------------
(* Legal calls, for enumeration: MaxA, MaxB bound the instances, Vs the    *)
(* values, MaxN the counts.                                                *)
RangesOf(Vs, n) == UNION {[1..k -> Vs] : k \in 0..n}
Calls(st, Vs, MaxN, MaxR) ==
  LET n == Len(A(st))
      pos == 0..n
      idx == 0..(n - 1)
      Huge == IF Bounded THEN {-1, -N - 1} ELSE {}
  IN {Call("push_back", <<v>>) : v \in Vs}
     \cup (IF n = 0 THEN {} ELSE {Call("pop_back", <<>>)})
     \cup {Call("insert1", <<p, v>>) : p \in pos, v \in Vs}
     \cup {Call("insertn", <<p, k, v>>) : p \in pos, k \in 0..MaxN \cup Huge, v \in Vs}
     \cup {Call("insertr", <<p>> \o r) : p \in pos, r \in RangesOf(Vs, MaxR)}
     \cup {Call("erase1", <<p>>) : p \in idx}
     \cup {Call("eraser", <<f, l>>) : f \in pos, l \in {k \in pos : TRUE}}
     \cup {Call("resize", <<k>>) : k \in 0..(n + MaxN) \cup Huge}
     \cup {Call("resizev", <<k, v>>) : k \in 0..(n + MaxN) \cup Huge, v \in Vs}
     \cup {Call("reserve", <<k>>) : k \in IF Bounded THEN {} ELSE 0..(n + MaxN)}
     \cup {Call("assignn", <<k, v>>) : k \in 0..(n + 1) \cup Huge, v \in Vs}
     \cup {Call("assignr", r) : r \in RangesOf(Vs, MaxR)}
     \cup {Call("clear", <<>>), Call("ctor", <<>>), Call("copy_ctor", <<>>), Call("assign_ab", <<>>),
           Call("assign_self", <<>>), Call("swap_self", <<>>), Call("swap", <<>>), Call("eq", <<>>)}
     \cup {Call("write", <<p, v>>) : p \in idx, v \in Vs}
     \cup {Call("ctorn", <<k>>) : k \in 0..MaxN \cup Huge}
     \cup {Call("ctornv", <<k, v>>) : k \in 0..MaxN \cup Huge, v \in Vs}
     \cup {Call("ctorr", r) : r \in RangesOf(Vs, MaxR)}
     \cup {Call("push_self", <<p>>) : p \in idx}
     \cup {Call("insert_self", <<i, p>>) : i \in idx, p \in pos}
     \cup {Call("insertn_self", <<i, p, k>>) : i \in idx, p \in pos, k \in 2..MaxN \cup Huge}
     \cup {Call("resize_self", <<i, k>>) : i \in idx, k \in (n + 1)..(n + MaxN) \cup Huge}
Legal(c, st) == c.op = "eraser" => c.args[1] <= c.args[2]
=============================================================================
