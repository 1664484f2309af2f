-------------------------------- MODULE Arr --------------------------------
(***************************************************************************)
(* ttl::array<T, N>: two arrays of N elements which never move.            *)
(***************************************************************************)
EXTENDS Common
CONSTANT N
Zeros(id) == [k \in 1..N |-> <<id + k, 0>>]
Start0 == [i |-> <<Zeros(0), Zeros(N)>>, x |-> <<>>]
A(st) == st.i[1]
B(st) == st.i[2]
\* New values in the same places.
Vals1(q, F(_)) == [k \in 1..Len(q) |-> <<q[k][1], F(k)>>]
SetA(st, F(_)) == [st EXCEPT !.i[1] = Vals1(@, F)]
SetB(st, F(_)) == [st EXCEPT !.i[2] = Vals1(@, F)]
Just(st) == {Out(<<>>, st)}
Put(st, p, v) == Just(SetA(st, LAMBDA k : IF k = p + 1 THEN v ELSE V(A(st)[k])))
Same(p, q) == \A k \in 1..N : V(p[k]) = V(q[k])

Step(c, st) ==
  LET as == c.args
      a == A(st)
      b == B(st)
  IN CASE \* writes through [], at, begin() + p, data() + p, end() - (N - p), front, back
          c.op \in {"set", "set_at", "set_it", "set_data", "set_end"} -> Put(st, as[1], as[2])
       [] c.op = "set_front" -> Put(st, 0, as[1])
       [] c.op = "set_back"  -> Put(st, N - 1, as[1])
       [] c.op = "fill"      -> Just(SetA(st, LAMBDA k : as[1]))
       [] c.op = "fill_self" -> Just(SetA(st, LAMBDA k : V(a[as[1] + 1])))
       [] c.op = "swap"      -> Just(SetB(SetA(st, LAMBDA k : V(b[k])), LAMBDA k : V(a[k])))
       [] c.op = "swap_self" -> Just(st)
       \* the first elements given, the others value-initialised
       [] c.op = "init"      -> Just(SetA(st, LAMBDA k : IF k <= Len(as) THEN as[k] ELSE 0))
       [] c.op = "copy_ctor" -> Just(SetB(st, LAMBDA k : V(a[k])))
       [] c.op = "assign_ab" -> Just(SetA(st, LAMBDA k : V(b[k])))
       [] c.op = "assign_self" -> Just(st)
       [] c.op = "eq"        -> {Out(<<Bit(Same(a, b)), Bit(~Same(a, b)), Bit(Same(a, b)), Bit(~Same(a, b)), 1>>, st)}
       [] c.op = "ask"       -> {Out(<<N, N, Bit(N = 0)>> \o (IF N = 0 THEN <<>> ELSE <<V(a[1]), V(a[N])>>), st)}

RECURSIVE Seqs(_, _)
Seqs(Vs, n) == IF n = 0 THEN {<<>>} ELSE {<<v>> \o s : v \in Vs, s \in Seqs(Vs, n - 1)}
Calls(st, Vs) ==
  LET pos == 0..(N - 1) IN
  {Call(o, <<p, v>>) : o \in {"set", "set_at", "set_it", "set_data", "set_end"}, p \in pos, v \in Vs}
  \cup (IF N = 0 THEN {} ELSE {Call(o, <<v>>) : o \in {"set_front", "set_back"}, v \in Vs})
  \cup {Call("fill", <<v>>) : v \in Vs} \cup {Call("fill_self", <<p>>) : p \in pos}
  \cup {Call(o, <<>>) : o \in {"swap", "swap_self", "copy_ctor", "assign_ab", "assign_self", "eq", "ask"}}
  \cup {Call("init", s) : s \in UNION {Seqs(Vs, k) : k \in 0..Min2(N, 3)}}
=============================================================================
