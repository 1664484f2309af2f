-------------------------------- MODULE Algo --------------------------------
(***************************************************************************)
(* ttl's algorithms: one buffer of values, instance 1; ranges [f, l) of it *)
(* are what an algorithm is given, and whatever it writes is written here, *)
(* so that everything outside the destination is seen to stay as it was.   *)
(* A second input range is given as arguments (the tail of args); output   *)
(* to another place goes to a scratch range which starts and ends with     *)
(* cells of value Blank and is part of the reply, after the returned       *)
(* position in it.                                                         *)
(*                                                                         *)
(* Values are ordered by v \div Div and equal by v \div EDiv: with Div = 2  *)
(* some distinct values are equivalent, which shows which of several such  *)
(* elements was taken, and with EDiv = 1 which comparison was made.        *)
(***************************************************************************)
EXTENDS Common
CONSTANTS Div, EDiv
Blank == 77
\* Values given that no element has (of another type, converted to the elements' type
\* they would be elements' values).
Far(Vs) == Vs \cup {90 + v : v \in Vs}
Start0 == [i |-> <<<<>>>>, x |-> <<>>]
A(st) == Vals(st.i[1])

Eq(x, y) == x \div EDiv = y \div EDiv
Same(x, y) == x \div Div = y \div Div   \* neither before the other
Lt(x, y) == x \div Div < y \div Div
Gt(x, y) == Lt(y, x)
\* Binary predicates: ==, <, >.  Unary ones: odd, not zero.
Rel(r, x, y) == CASE r = 0 -> Eq(x, y) [] r = 1 -> Lt(x, y) [] r = 2 -> Lt(y, x)
Pred(p, x) == CASE p = 0 -> x % 2 = 1 [] p = 1 -> x # 0
\* Functions to transform with.
Fun(x) == x + 10
Fun2(x, y) == 10 * x + y + 100

\* Smallest of the positions in S, or l.
FirstOf(S, l) == IF S = {} THEN l ELSE CHOOSE p \in S : \A q \in S : p <= q
LastOf(S, f) == IF S = {} THEN f ELSE CHOOSE p \in S : \A q \in S : q <= p
\* The first n neighbours of a[f..l) that all match, the definition; and one pass.
RunDef(a, f, l, n, P(_)) == IF n <= 0 THEN f ELSE FirstOf({p \in f..(l - n) : \A k \in 0..(n - 1) : P(a[p + k + 1])}, l)
RunPass(a, f, l, n, P(_)) == \* <<position of the run, matches up to here>>
  IF n <= 0 THEN f
  ELSE LET r == SE!FoldLeft(LAMBDA s, p : IF s[1] < l THEN s
                                          ELSE IF ~P(a[p + 1]) THEN <<l, 0>>
                                          ELSE IF s[2] + 1 = n THEN <<p + 1 - n, n>> ELSE <<l, s[2] + 1>>,
                            <<l, 0>>, [k \in 1..(l - f) |-> f + k - 1]) IN r[1]
RunOf(a, f, l, n, P(_)) == IF n > 100 THEN RunPass(a, f, l, n, P) ELSE RunDef(a, f, l, n, P)
\* Positions of the first smallest and the first greatest of a[f..l).
Best(q, Before_(_, _)) == SE!FoldLeft(LAMBDA m, v : IF Before_(v, m) THEN v ELSE m, Head(q), q)
First(q, Before_(_, _), f) == IF q = <<>> THEN f ELSE f + FirstOf(UNION {{k \in 0..(Len(q) - 1) : Same(q[k + 1], b)} : b \in {Best(q, Before_)}}, 0)
\* ... none of the others is before it, and it is the first such.
FirstDef(q, Before_(_, _), f) == f + FirstOf({k \in 0..(Len(q) - 1) : \A o \in 1..Len(q) : ~Before_(q[o], q[k + 1])}, Len(q))
Keeps(q, Keep(_)) == SelectSeq(q, Keep)
Neg(v, P(_)) == ~P(v)

Ask(st, r) == {Out(r, st)}
Write(st, r, vs) == {Out(r, [st EXCEPT !.i[1] = New(st, vs)])}
\* Overwrite from position p on.  (Binding values, so that TLC computes each once.)
Over(q0, p, new0) == CHOOSE r \in {Before(q, p) \o new \o From(q, p + Len(new)) : q \in {q0}, new \in {new0}} : TRUE
\* Output elsewhere: the reply is the position returned, then the scratch
\* range: one Blank, the output, Blanks up to `room' cells, one Blank.
Scratch(st, out, room) == Ask(st, <<Len(out), Blank>> \o out \o Rep(room - Len(out) + 1, Blank))

\* The first difference of p and q under r (0-based).
Diff(p, q, r) == FirstOf({k \in 0..(Min2(Len(p), Len(q)) - 1) : ~Rel(r, p[k + 1], q[k + 1])}, Min2(Len(p), Len(q)))

RECURSIVE MergeVals(_, _)
MergeVals(p, q) ==
  IF q = <<>> THEN p ELSE IF p = <<>> THEN q
  ELSE IF Lt(Head(q), Head(p)) THEN <<Head(q)>> \o MergeVals(p, Tail(q)) ELSE <<Head(p)>> \o MergeVals(Tail(p), q)
\* Ordered by r (1: <, 2: >)
Ordered(q, r) == \A k \in 1..(Len(q) - 1) : ~Rel(r, q[k + 1], q[k])

FarPos(n, hi, lo) == IF hi >= n THEN <<n, 0>> ELSE <<hi, lo>>

Step(c, st) ==
  LET as == c.args
      a == A(st)
      f == as[1]
      l == as[2]
      q == Slice(a, f, l)                       \* the range
      at(p) == a[p + 1]
      in == f..(l - 1)
      Fst(P(_)) == FirstOf({p \in in : P(at(p))}, l)
      tail(n) == SubSeq(as, n + 1, Len(as))     \* the second range, args after the n-th
      put(new) == Write(st, <<>>, Over(a, f, new))
  IN CASE c.op = "load"        -> Write(st, <<>>, as)
       \* as[1] values that change every as[2] places, as[3] of them in turn from as[4] on
       [] c.op = "load_run"    -> Write(st, <<>>, [k \in 1..as[1] |-> as[4] + (((k - 1) \div as[2]) % as[3])])
       [] c.op = "drop"        -> Write(st, <<>>, <<>>)
       \* non-modifying:
       [] c.op = "find"        -> Ask(st, <<Fst(LAMBDA v : Eq(v, as[3]))>>)
       [] c.op = "find_if"     -> Ask(st, <<Fst(LAMBDA v : Pred(as[3], v))>>)
       [] c.op = "find_if_not" -> Ask(st, <<Fst(LAMBDA v : ~Pred(as[3], v))>>)
       [] c.op = "search"      -> LET s == tail(2) IN
            Ask(st, <<FirstOf({p \in f..(l - Len(s)) : \A k \in 1..Len(s) : Eq(at(p + k - 1), s[k])}, l)>>)
       [] c.op = "search_p"    -> LET s == tail(3) IN
            Ask(st, <<FirstOf({p \in f..(l - Len(s)) : \A k \in 1..Len(s) : Rel(as[3], at(p + k - 1), s[k])}, l)>>)
       [] c.op = "search_n"    -> Ask(st, <<RunOf(a, f, l, as[3], LAMBDA v : Eq(v, as[4]))>>)
       [] c.op = "search_n_p"  -> Ask(st, <<RunOf(a, f, l, as[3], LAMBDA v : Rel(as[5], v, as[4]))>>)
       [] c.op = "count"       -> Ask(st, <<Cardinality({p \in in : Eq(at(p), as[3])})>>)
       [] c.op = "count_if"    -> Ask(st, <<Cardinality({p \in in : Pred(as[3], at(p))})>>)
       [] c.op = "all_of"      -> Ask(st, <<Bit(\A p \in in : Pred(as[3], at(p)))>>)
       [] c.op = "any_of"      -> Ask(st, <<Bit(\E p \in in : Pred(as[3], at(p)))>>)
       [] c.op = "none_of"     -> Ask(st, <<Bit(\A p \in in : ~Pred(as[3], at(p)))>>)
       [] c.op = "adjacent_find"   -> Ask(st, <<FirstOf({p \in f..(l - 2) : Eq(at(p), at(p + 1))}, l)>>)
       [] c.op = "adjacent_find_p" -> Ask(st, <<FirstOf({p \in f..(l - 2) : Rel(as[3], at(p), at(p + 1))}, l)>>)
       \* for_each: what the function saw, then what the returned function counted
       [] c.op = "for_each"    -> Ask(st, q \o <<Len(q)>>)
       \* with another range (args): 3 iterators (it is at least as long), 4 iterators
       [] c.op \in {"equal3", "equal4"}     -> LET s == tail(2) IN
            Ask(st, <<Bit((c.op = "equal3" \/ Len(q) = Len(s)) /\ Diff(q, s, 0) = Len(q))>>)
       [] c.op \in {"equal3p", "equal4p"}   -> LET s == tail(3) IN
            Ask(st, <<Bit((c.op = "equal3p" \/ Len(q) = Len(s)) /\ Diff(q, s, as[3]) = Len(q))>>)
       [] c.op \in {"mismatch3", "mismatch4"}   -> LET d == Diff(q, tail(2), 0) IN Ask(st, <<f + d, d>>)
       [] c.op \in {"mismatch3p", "mismatch4p"} -> LET d == Diff(q, tail(3), as[3]) IN Ask(st, <<f + d, d>>)
       \* modifying:
       \* two positions; with another range: what that holds afterwards, after the position returned
       [] c.op = "iter_swap"   -> Write(st, <<>>, Over(Over(a, f, <<at(l)>>), l, <<at(f)>>))
       [] c.op = "swap_ranges" -> LET s == tail(2) IN
            Write(st, <<l - f>> \o q \o SubSeq(s, l - f + 1, Len(s)), Over(a, f, SubSeq(s, 1, l - f)))
       [] c.op = "swap_ranges_in" -> LET d == as[3] IN
            Write(st, <<d + l - f>>, Over(Over(a, f, Slice(a, d, d + l - f)), d, q))
       [] c.op = "fill"        -> put(Rep(l - f, as[3]))
       \* n = as[2] elements from f
       [] c.op = "fill_n"      -> LET n == Max2(as[2], 0) IN Write(st, <<f + n>>, Over(a, f, Rep(n, as[3])))
       [] c.op = "copy"        -> Scratch(st, q, Len(q))
       [] c.op = "copy_in"     -> Write(st, <<as[3] + l - f>>, Over(a, as[3], q))
       [] c.op = "copy_if"     -> Scratch(st, Keeps(q, LAMBDA v : Pred(as[3], v)), Len(q))
       [] c.op = "copy_n"      -> LET n == Max2(as[2], 0) IN Scratch(st, Slice(a, f, f + n), n)
       [] c.op = "copy_n_in"   -> LET n == Max2(as[2], 0) IN Write(st, <<as[3] + n>>, Over(a, as[3], Slice(a, f, f + n)))
       \* the position returned is the first written
       [] c.op = "copy_backward"    -> Ask(st, <<0, Blank>> \o q \o <<Blank>>)
       [] c.op = "copy_backward_in" -> Write(st, <<as[3] - (l - f)>>, Over(a, as[3] - (l - f), q))
       \* a generator of v, v + 1, ...; how often it was called
       [] c.op = "generate"    -> Write(st, <<l - f>>, Over(a, f, [k \in 1..(l - f) |-> as[3] + k - 1]))
       [] c.op = "generate_n"  -> LET n == Max2(as[2], 0) IN Write(st, <<f + n, n>>, Over(a, f, [k \in 1..n |-> as[3] + k - 1]))
       [] c.op = "replace"     -> put([k \in 1..Len(q) |-> IF Eq(q[k], as[3]) THEN as[4] ELSE q[k]])
       [] c.op = "replace_if"  -> put([k \in 1..Len(q) |-> IF Pred(as[3], q[k]) THEN as[4] ELSE q[k]])
       [] c.op = "replace_copy"    -> Scratch(st, [k \in 1..Len(q) |-> IF Eq(q[k], as[3]) THEN as[4] ELSE q[k]], Len(q))
       [] c.op = "replace_copy_if" -> Scratch(st, [k \in 1..Len(q) |-> IF Pred(as[3], q[k]) THEN as[4] ELSE q[k]], Len(q))
       \* what is behind the new end is unspecified: the driver overwrites it with 0
       [] c.op = "remove"      -> LET k == Keeps(q, LAMBDA v : ~Eq(v, as[3])) IN
            Write(st, <<f + Len(k)>>, Over(a, f, k \o Rep(Len(q) - Len(k), 0)))
       [] c.op = "remove_if"   -> LET k == Keeps(q, LAMBDA v : ~Pred(as[3], v)) IN
            Write(st, <<f + Len(k)>>, Over(a, f, k \o Rep(Len(q) - Len(k), 0)))
       [] c.op = "remove_copy"    -> Scratch(st, Keeps(q, LAMBDA v : ~Eq(v, as[3])), Len(q))
       [] c.op = "remove_copy_if" -> Scratch(st, Keeps(q, LAMBDA v : ~Pred(as[3], v)), Len(q))
       [] c.op = "transform"      -> Scratch(st, [k \in 1..Len(q) |-> Fun(q[k])], Len(q))
       [] c.op = "transform2"     -> LET s == tail(2) IN Scratch(st, [k \in 1..Len(q) |-> Fun2(q[k], s[k])], Len(q))
       \* in place: the values exchanged by Pred 0's negation, 0 <-> 1
       [] c.op = "transform_in"   -> Write(st, <<l>>, Over(a, f, [k \in 1..Len(q) |-> IF q[k] = 0 THEN 1 ELSE 0]))
       [] c.op = "reverse"        -> put([k \in 1..Len(q) |-> q[Len(q) + 1 - k]])
       [] c.op = "reverse_copy"   -> Scratch(st, [k \in 1..Len(q) |-> q[Len(q) + 1 - k]], Len(q))
       \* sorted ranges, min and max:
       \* as[3] the value; *_c: as[4] the order (1: <, 2: >) by which the range is sorted
       [] c.op \in {"lower_bound", "lower_bound_c"} -> LET r == IF c.op = "lower_bound" THEN 1 ELSE as[4] IN
            Ask(st, <<f + Cardinality({p \in in : Rel(r, at(p), as[3])})>>)
       [] c.op \in {"upper_bound", "upper_bound_c"} -> LET r == IF c.op = "upper_bound" THEN 1 ELSE as[4] IN
            Ask(st, <<l - Cardinality({p \in in : Rel(r, as[3], at(p))})>>)
       [] c.op \in {"equal_range", "equal_range_c"} -> LET r == IF c.op = "equal_range" THEN 1 ELSE as[4] IN
            Ask(st, <<f + Cardinality({p \in in : Rel(r, at(p), as[3])}), l - Cardinality({p \in in : Rel(r, as[3], at(p))})>>)
       [] c.op \in {"binary_search", "binary_search_c"} -> Ask(st, <<Bit(\E p \in in : Same(at(p), as[3]))>>)
       [] c.op = "is_sorted_until" -> Ask(st, <<FirstOf({p \in (f + 1)..(l - 1) : Lt(at(p), at(p - 1))}, l)>>)
       [] c.op = "is_sorted"   -> Ask(st, <<Bit(Ordered(q, 1))>>)
       [] c.op = "merge"       -> Scratch(st, MergeVals(q, tail(2)), Len(q) + Len(as) - 2)
       \* of the elements at two positions f and l: which of the two is returned
       \* (0: the first argument, 1: the second); *_c as[3] the order
       [] c.op = "min"         -> Ask(st, <<Bit(Lt(at(l), at(f)))>>)
       [] c.op = "min_c"       -> Ask(st, <<Bit(Rel(as[3], at(l), at(f)))>>)
       [] c.op = "max"         -> Ask(st, <<Bit(Lt(at(f), at(l)))>>)
       [] c.op = "max_c"       -> Ask(st, <<Bit(Rel(as[3], at(f), at(l)))>>)
       [] c.op = "minmax"      -> LET b == Bit(Lt(at(l), at(f))) IN Ask(st, <<b, 1 - b>>)
       [] c.op = "minmax_c"    -> LET b == Bit(Rel(as[3], at(l), at(f))) IN Ask(st, <<b, 1 - b>>)
       [] c.op = "min_element" -> Ask(st, <<First(q, Lt, f)>>)
       [] c.op = "max_element" -> Ask(st, <<First(q, Gt, f)>>)
       [] c.op = "minmax_element" -> Ask(st, <<First(q, Lt, f), First(q, Gt, f)>>)
       \* The numbers from 0 on, as[1] times 2^28 of them, and the number as[2] times 2^28
       \* and as[3]: positions so, too (TLC's integers have 32 bits).
       [] c.op = "far_lower"   -> Ask(st, FarPos(as[1], as[2], as[3]))
       [] c.op = "far_upper"   -> Ask(st, FarPos(as[1], as[2], as[3] + 1))
       [] c.op = "far_equal"   -> Ask(st, FarPos(as[1], as[2], as[3]) \o FarPos(as[1], as[2], as[3] + 1))
       [] c.op = "far_search"  -> Ask(st, <<Bit(as[2] < as[1])>>)

-----------------------------------------------------------------------------
RECURSIVE Seqs(_, _)
Seqs(Vs, n) == IF n = 0 THEN {<<>>} ELSE {<<v>> \o s : v \in Vs, s \in Seqs(Vs, n - 1)}
UpTo(Vs, n) == UNION {Seqs(Vs, k) : k \in 0..n}

\* Which legal call there are: by group of algorithms; patterns up to MaxP.
Calls(st, Groups, Vs, MaxN, MaxP, Edges) ==
  LET a == A(st)
      n == Len(a)
      ends == {p \in 0..n : ~Edges \/ p <= 1 \/ p >= n - 1}
      R == {<<f, l>> \in ends \X ends : f <= l}
      cells == 0..(n - 1)
      pats == UpTo(Vs, MaxP)
      q(r) == Slice(a, r[1], r[2])
      room(r) == r[2] - r[1]
      longer(r) == {s \in pats : Len(s) >= room(r)}
  IN (IF n = 0 THEN {Call("load", s) : s \in UpTo(Vs, MaxN) \ {<<>>}} ELSE {Call("drop", <<>>)})
     \cup (IF "search" \notin Groups THEN {} ELSE
       {Call("search", r \o s) : r \in R, s \in pats}
       \cup {Call("search_p", r \o <<m>> \o s) : m \in 0..2, r \in R, s \in pats}
       \cup {Call("search_n", r \o <<k, v>>) : r \in R, k \in (-1)..(MaxN + 1), v \in Far(Vs)}
       \cup {Call("search_n_p", r \o <<k, v, m>>) : r \in R, k \in (-1)..(MaxN + 1), v \in Vs, m \in 0..2})
     \cup (IF "non" \notin Groups THEN {} ELSE
       {Call(o, r \o <<v>>) : o \in {"find", "count"}, r \in R, v \in Far(Vs)}
       \cup {Call(o, r \o <<p>>) : o \in {"find_if", "find_if_not", "count_if", "all_of", "any_of", "none_of"}, r \in R, p \in 0..1}
       \cup {Call(o, r) : o \in {"adjacent_find", "for_each"}, r \in R}
       \cup {Call("adjacent_find_p", r \o <<m>>) : r \in R, m \in 0..2})
     \cup (IF "two" \notin Groups THEN {} ELSE
       UNION {{Call(o, r \o s) : o \in {"equal4", "mismatch4"}, s \in pats}
              \cup {Call(o, r \o s) : o \in {"equal3", "mismatch3"}, s \in longer(r)}
              \cup {Call(o, r \o <<m>> \o s) : o \in {"equal4p", "mismatch4p"}, s \in pats, m \in 1..2}
              \cup {Call(o, r \o <<m>> \o s) : o \in {"equal3p", "mismatch3p"}, s \in longer(r), m \in 1..2} : r \in R})
     \cup (IF "mod" \notin Groups THEN {} ELSE
       {Call("iter_swap", <<p, o>>) : p \in cells, o \in cells}
       \cup {Call(o, r \o <<v>>) : o \in {"fill", "generate"}, r \in R, v \in Vs}
       \cup {Call(o, r \o <<v>>) : o \in {"remove", "remove_copy"}, r \in R, v \in Far(Vs)}
       \cup {Call(o, <<f, k, v>>) : o \in {"fill_n", "generate_n"}, f \in ends, k \in (-1)..n, v \in Vs}
       \cup {Call(o, r) : o \in {"copy", "copy_backward", "transform", "transform_in", "reverse", "reverse_copy"}, r \in R}
       \cup {Call(o, r \o <<p>>) : o \in {"copy_if", "remove_if", "remove_copy_if"}, r \in R, p \in 0..1}
       \cup {Call(o, r \o <<v, w>>) : o \in {"replace", "replace_copy"}, r \in R, v \in Far(Vs), w \in Vs}
       \cup {Call(o, r \o <<p, w>>) : o \in {"replace_if", "replace_copy_if"}, r \in R, p \in 0..1, w \in Vs}
       \cup {Call("copy_n", <<f, k>>) : f \in ends, k \in (-1)..n}
       \cup {Call("copy_n_in", <<f, k, d>>) : f \in ends, k \in (-1)..n, d \in ends}
       \cup {Call("copy_in", r \o <<d>>) : r \in R, d \in ends}
       \cup {Call("copy_backward_in", r \o <<d>>) : r \in R, d \in ends}
       \cup {Call("swap_ranges_in", r \o <<d>>) : r \in R, d \in ends})
     \cup (IF "mod2" \notin Groups THEN {} ELSE
       UNION {{Call(o, r \o s) : o \in {"swap_ranges", "transform2"}, s \in longer(r)} : r \in R})
     \cup (IF "sorted" \notin Groups THEN {} ELSE
       {Call(o, r \o <<v>>) : o \in {"lower_bound", "upper_bound", "equal_range", "binary_search"}, r \in R, v \in Far(Vs)}
       \cup {Call(o, r \o <<v, m>>) : o \in {"lower_bound_c", "upper_bound_c", "equal_range_c", "binary_search_c"}, r \in R, v \in Vs, m \in 1..2}
       \cup {Call("merge", r \o s) : r \in R, s \in {s \in pats : Ordered(s, 1)}})
     \cup (IF "minmax" \notin Groups THEN {} ELSE
       {Call(o, r) : o \in {"is_sorted", "is_sorted_until", "min_element", "max_element", "minmax_element"}, r \in R}
       \cup {Call(o, <<p, k>>) : o \in {"min", "max", "minmax"}, p \in cells, k \in cells}
       \cup {Call(o, <<p, k, m>>) : o \in {"min_c", "max_c", "minmax_c"}, p \in cells, k \in cells, m \in 1..2})

\* Preconditions that depend on the contents or on several arguments.
Legal(c, st) ==
  LET a == A(st)
      n == Len(a)
      as == c.args
      f == as[1]
      l == as[2]
  IN CASE c.op \in {"lower_bound", "upper_bound", "equal_range", "binary_search", "merge"} -> Ordered(Slice(a, f, l), 1)
       [] c.op \in {"lower_bound_c", "upper_bound_c", "equal_range_c", "binary_search_c"} -> Ordered(Slice(a, f, l), as[4])
       [] c.op \in {"fill_n", "generate_n", "copy_n"} -> f + l <= n
       \* the destination does not begin inside the source (or, backward, end in it)
       [] c.op = "copy_in" -> as[3] + l - f <= n /\ (as[3] < f \/ as[3] >= l \/ f = l)
       [] c.op = "copy_n_in" -> f + l <= n /\ as[3] + Max2(l, 0) <= n /\ (as[3] < f \/ as[3] >= f + l \/ l <= 0)
       [] c.op = "copy_backward_in" -> as[3] >= l - f /\ (as[3] <= f \/ as[3] > l \/ f = l)
       [] c.op = "swap_ranges_in" -> as[3] + l - f <= n /\ (as[3] + l - f <= f \/ as[3] >= l)
       [] OTHER -> TRUE
LegalCalls(st, Groups, Vs, MaxN, MaxP, Edges) == {c \in Calls(st, Groups, Vs, MaxN, MaxP, Edges) : Legal(c, st)}
=============================================================================
