----------------------------- MODULE WorkTrace -----------------------------
(***************************************************************************)
(* What the calls of a recorded history did besides their results: e.w =   *)
(* <<comparisons of elements, applications of given functions, copies of   *)
(* elements, allocations>>.                                                *)
(* How often a function that is given to be applied to each element is     *)
(* applied is visible to the user, and so is exact.  What takes elements   *)
(* over as they are, or does away with them, copies none and allocates     *)
(* nothing; what is not about equality or order compares none.  The other  *)
(* bounds are those of the obvious algorithm, with room for another way to *)
(* do the same: a factor of two and a few more.                            *)
(* Contents are judged by the components' own specifications.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, History
Call(op, as) == [op |-> op, args |-> as]
Max2(x, y) == IF x < y THEN y ELSE x
CONSTANTS Kind
VARIABLES l, st

\* Any number; nothing; something constant.
More == 1000000000
Few == 4
Twice(n) == 2 * n + Few
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

\* At least and at most so many applications; at most so many of the others.
Take(cmp, lo, hi, cp, al) == [cmp |-> cmp, lo |-> lo, hi |-> hi, cp |-> cp, al |-> al]
Cmp(n) == Take(n, 0, n, More, More)
Apply(n) == Take(0, n, n, More, More)

\* Algorithms: n elements; m in the other range.
OfAlgo(c) ==
  LET as == c.args
      n == as[2] - as[1]
      k == Max2(as[2], 0)
      m == Len(as) - 2
  IN CASE c.op \in {"load", "load_run", "drop"} -> Cmp(More)
       [] c.op \in {"for_each", "generate", "transform", "transform2", "transform_in"} -> Apply(n)
       [] c.op = "generate_n" -> Apply(k)
       \* every element is asked about once
       [] c.op \in {"count_if", "copy_if", "remove_if", "remove_copy_if", "replace_if", "replace_copy_if"} -> Apply(n)
       [] c.op \in {"find_if", "find_if_not", "all_of", "any_of", "none_of"} -> Take(0, 0, n, More, More)
       [] c.op \in {"find", "count", "remove", "remove_copy", "replace", "replace_copy", "adjacent_find", "adjacent_find_p", "is_sorted", "is_sorted_until",
                    "min_element", "max_element", "search_n", "search_n_p", "equal3", "equal4", "equal3p", "equal4p", "mismatch3", "mismatch4", "mismatch3p", "mismatch4p"} -> Cmp(Twice(n))
       [] c.op = "minmax_element" -> Cmp(Twice(2 * n))
       [] c.op \in {"search", "search_p"} -> Cmp(Twice(n * m))
       [] c.op \in {"lower_bound", "lower_bound_c", "upper_bound", "upper_bound_c", "equal_range", "equal_range_c", "binary_search", "binary_search_c"} -> Cmp(Twice(2 * n))
       [] c.op = "merge" -> Cmp(Twice(n + m))
       [] c.op \in {"min", "min_c", "max", "max_c", "minmax", "minmax_c"} -> Cmp(Few)
       \* copying, filling, exchanging, ...
       [] OTHER -> Cmp(0)

\* Containers: n elements in the first instance before the call, o in the
\* other; j elements after the call more than before.
OfVector(c, n, o, j) ==
  CASE c.op = "eq" -> Take(More, 0, More, More, More)
       [] c.op \in {"swap", "swap_self"} /\ Kind = "fixed" -> Take(0, 0, 0, Twice(2 * (n + o)), 0)
       [] c.op \in {"swap", "swap_self", "pop_back", "clear"} -> Take(0, 0, 0, 0, 0)
       [] c.op = "write" -> Take(0, 0, 0, Few, 0)
       [] c.op \in {"erase1", "eraser"} -> Take(0, 0, 0, More, 0)
       \* how vectors grow is left to them
       [] OTHER -> Take(0, 0, 0, More, IF Kind = "fixed" THEN 0 ELSE More)

OfList(c, n, o, j) ==
  CASE c.op = "eq" -> Take(More, 0, More, More, More)
    \* elements are taken over as they are, or done away with
    [] c.op \in {"swap", "swap_self", "pop_front", "pop_back", "clear", "erase1", "eraser", "splice_all", "splice_one", "splice_range", "move_one", "move_range", "reverse", "roll_head", "cleanup"} -> Take(0, 0, 0, 0, 0)
    [] c.op \in {"remove", "remove_self"} -> Take(Twice(n), 0, More, Few, 1)
    [] c.op = "remove_if" -> Take(0, n, n, 0, 0)
    [] c.op = "unique" -> Take(Twice(n), 0, 0, 0, 0)
    [] c.op = "unique_if" -> Take(0, Max2(n - 1, 0), Max2(n - 1, 0), 0, 0)
    [] c.op = "merge" -> Take(Twice(n + o), 0, 0, 0, 0)
    [] c.op \in {"merge_gt", "merge_half"} -> Take(0, 0, Twice(n + o), 0, 0)
    [] c.op = "write" -> Take(0, 0, 0, Few, 0)
    [] c.op \in {"push_front", "push_back", "push_front_self", "push_back_self", "insert1", "insert_self", "insertn", "insertn_self", "resize", "resizev", "resize_self"}
         -> Take(0, 0, 0, Twice(Max2(j, 0)), Max2(j, 0) + 1)
    [] c.op = "insertr" -> Take(0, 0, 0, Twice(2 * j), Twice(j)) \* the range inserted may be built for the call
    [] OTHER -> Take(0, 0, 0, More, More)

OfTree(c, n, o, j) ==
  CASE c.op \in {"insert", "insert_self", "index", "index_set", "insert_equal", "insert_unique", "at", "write"} -> Take(Twice(2 * n), 0, More, 3 * Few, 1)
    [] c.op \in {"erase", "erase_self", "remove"} -> Take(Twice(2 * n), 0, More, 3 * Few, 0)
    [] c.op = "clear" -> Take(0, 0, 0, 0, 0)
    [] c.op \in {"next", "prev", "place"} -> Take(Twice(2 * n), 0, More, 3 * Few, 0)
    [] OTHER -> Take(More, 0, More, More, More)

\* Sorted vectors.
OfSorted(c, n, o, j) ==
  CASE c.op \in {"insert", "insert_self", "index", "index_set"} -> Take(Twice(2 * n), 0, More, 2 * Twice(n + 1), 2)
    [] c.op = "at" -> Take(Twice(2 * n), 0, More, 3 * Few, 0)
    [] OTHER -> Take(More, 0, More, More, More)

Bounds(c, n, o, j) == CASE Kind = "algo" -> OfAlgo(c)
                        [] Kind \in {"vector", "fixed"} -> OfVector(c, n, o, j)
                        [] Kind = "list" -> OfList(c, n, o, j)
                        [] Kind = "tree" -> OfTree(c, n, o, j)
                        [] Kind = "sorted" -> OfSorted(c, n, o, j)
Keeps(w, b) == w[1] <= b.cmp /\ w[2] >= b.lo /\ w[2] <= b.hi /\ w[3] <= b.cp /\ w[4] <= b.al

Log == TheLog
Sizes(is) == [k \in 1..Len(is) |-> Len(is[k])]
Init == l = 1 /\ st = <<0, 0>>
Next ==
  /\ l <= Len(Log)
  /\ LET e == Log[l]
         now == Sizes(e.i)
         o == IF Len(st) > 1 THEN st[2] ELSE 0
         b == Bounds(Call(e.op, e.args), st[1], o, now[1] - st[1])
     IN /\ IF e.op = "reset" \/ Keeps(e.w, b) THEN TRUE ELSE PrintT(<<"REJECT", l, e.op, e.args, st, b, e.w>>) /\ FALSE
        /\ st' = now
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STUCK", TLCGet("stats").diameter>>)
=============================================================================
