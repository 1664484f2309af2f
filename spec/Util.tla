-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* ttl::pair and the small function templates.  Two pairs (one token       *)
(* <<id, first, second>> each); ranges and single values are arguments.    *)
(***************************************************************************)
EXTENDS Common
Start0 == [i |-> << <<<<1, 0, 0>>>>, <<<<2, 0, 0>>>> >>, x |-> <<>>]
P(st) == st.i[1][1]
Q(st) == st.i[2][1]
SetP(st, f, s) == [st EXCEPT !.i[1][1] = <<@[1], f, s>>]
SetQ(st, f, s) == [st EXCEPT !.i[2][1] = <<@[1], f, s>>]
Reply(st, r) == {Out(r, st)}
Just(st) == {Out(<<>>, st)}

RECURSIVE Acc(_, _)
\* A fold that is neither commutative nor associative.
Acc(v, q) == IF q = <<>> THEN v ELSE Acc((3 * v + Head(q)) % 1009, Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Step(c, st) ==
  LET as == c.args
      x == as[1]
      y == as[2]
      p == P(st)
      q == Q(st)
  IN CASE c.op = "ctor"       -> Just(SetP(st, 0, 0))
       [] c.op = "ctor2"      -> Just(SetP(st, x, y))
       [] c.op = "make_pair"  -> Just(SetP(st, x, y))
       [] c.op = "copy_ctor"  -> Just(SetQ(st, p[2], p[3]))
       \* from (by construction, assignment) a pair of other member types
       [] c.op \in {"conv_ctor", "conv_assign"} -> Just(SetP(st, x, y))
       [] c.op = "assign_ab"  -> Just(SetP(st, q[2], q[3]))
       [] c.op = "assign_self" -> Just(st)
       [] c.op = "swap"       -> Just(SetQ(SetP(st, q[2], q[3]), p[2], p[3]))
       [] c.op = "swap_self"  -> Just(st)
       [] c.op = "swap_fn"    -> Just(SetQ(SetP(st, q[2], q[3]), p[2], p[3]))
       \* ttl::swap(p.first, p.second), ttl::swap(p.first, p.first)
       [] c.op = "swap_members" -> Just(SetP(st, p[3], p[2]))
       [] c.op = "swap_same"  -> Just(st)
       \* assignment through what select_first and select_second return; what they
       \* and select_same return of a constant: the designated object itself
       [] c.op = "sel_first"  -> Just(SetP(st, x, p[3]))
       [] c.op = "sel_second" -> Just(SetP(st, p[2], x))
       [] c.op = "sel_const"  -> Reply(st, <<p[2], p[3], 1>>)
       \* p == q, p != q, q == p, p == p
       [] c.op = "eq"         -> Reply(st, <<Bit(Tail(p) = Tail(q)), Bit(Tail(p) # Tail(q)), Bit(Tail(p) = Tail(q)), 1>>)
       \* less, greater, equal_to, not_equal_to of (x, y)
       [] c.op = "cmp"        -> Reply(st, <<Bit(x < y), Bit(x > y), Bit(x = y), Bit(x # y)>>)
       \* ttl::swap of two variables
       [] c.op = "swap_vars"  -> Reply(st, <<y, x>>)
       \* of n objects, positions x and y: the distance; from x by d: the position
       [] c.op = "distance"   -> Reply(st, <<y - x>>)
       [] c.op = "advance"    -> Reply(st, <<x + y>>)
       \* iota(f, l, v) in as[4] cells holding 50: all cells afterwards
       [] c.op = "iota"       -> Reply(st, [k \in 1..as[4] |-> IF k - 1 >= x /\ k - 1 < y THEN as[3] + k - 1 - x ELSE 50])
       [] c.op = "accumulate" -> Reply(st, <<x + Sum(Tail(as))>>)
       [] c.op = "accumulate_nc" -> Reply(st, <<Acc(x, Tail(as))>>)
       \* countof arrays of 1, 2, 7 elements; move(o) is o
       [] c.op = "countof"    -> Reply(st, <<1, 2, 7>>)
       [] c.op = "move"       -> Reply(st, <<1, p[2]>>)

RECURSIVE Seqs(_, _)
Seqs(Vs, n) == IF n = 0 THEN {<<>>} ELSE {<<v>> \o s : v \in Vs, s \in Seqs(Vs, n - 1)}
Calls(st, Vs, MaxN) ==
  {Call(o, <<>>) : o \in {"ctor", "copy_ctor", "assign_ab", "assign_self", "swap", "swap_self", "swap_fn", "swap_members", "swap_same", "sel_const", "eq", "countof", "move"}}
  \cup {Call(o, <<v, w>>) : o \in {"ctor2", "make_pair", "conv_ctor", "conv_assign", "cmp", "swap_vars"}, v \in Vs, w \in Vs}
  \cup {Call(o, <<v>>) : o \in {"sel_first", "sel_second"}, v \in Vs}
  \cup {Call(o, <<v, w>>) : o \in {"distance"}, v \in 0..MaxN, w \in 0..MaxN}
  \cup {Call("advance", <<v, d>>) : v \in 0..MaxN, d \in (-MaxN)..MaxN}
  \cup {Call("iota", <<f, l, v, MaxN>>) : f \in 0..MaxN, l \in 0..MaxN, v \in Vs}
  \cup {Call(o, <<v>> \o s) : o \in {"accumulate", "accumulate_nc"}, v \in Vs, s \in UNION {Seqs(Vs, k) : k \in 0..MaxN}}
Legal(c, MaxN) ==
  CASE c.op = "advance" -> c.args[1] + c.args[2] \in 0..MaxN
    [] c.op = "iota" -> c.args[1] <= c.args[2]
    [] OTHER -> TRUE
=============================================================================
