------------------------------- MODULE List -------------------------------
(***************************************************************************)
(* ttl::list.  Two instances st.i = <<a, b>>; st.x is the kept cursor (see *)
(* Common) or <<>> where none is explored.  Positions are 0-based, Len is  *)
(* end().                                                                  *)
(*                                                                         *)
(* Named deviation (known finding): erase(first, last) of ttl leaves the   *)
(* element in front of last; KnownErase = TRUE allows that outcome, too.   *)
(***************************************************************************)
EXTENDS Common
CONSTANTS KnownErase, Cursor

A(st) == st.i[1]
B(st) == st.i[2]
Init0 == [i |-> <<<<>>, <<>>>>, x |-> IF Cursor THEN <<0, 0>> ELSE <<>>]

SetA(st, q) == [st EXCEPT !.i[1] = q]
SetAB(st, p, q) == [st EXCEPT !.i = <<p, q>>]
Just(s) == {Out(<<>>, s)}
Become(st, vs) == Just(SetA(st, New(st, vs)))
Insert(st, p, vs) == SetA(st, InsertAt(A(st), p, New(st, vs)))
Resized(st, n, v) == IF n <= Len(A(st)) THEN SetA(st, Before(A(st), n))
                     ELSE SetA(st, A(st) \o New(st, Rep(n - Len(A(st)), v)))

\* Keep an element when it differs from the last one kept; m selects what
\* counts as the same: 0 equal values, 1 equal halves.
Same(m, x, y) == IF m = 0 THEN x = y ELSE x \div 2 = y \div 2
Uniq(m, q) == SE!FoldLeft(LAMBDA kept, t : IF kept # <<>> /\ Same(m, V(kept[Len(kept)]), V(t)) THEN kept ELSE Append(kept, t), <<>>, q)

\* Elements f..l-1 of a moved in front of position p of a (p not inside).
MoveWithin(q, p, f, l) ==
  IF p <= f THEN Before(q, p) \o Slice(q, f, l) \o Slice(q, p, f) \o From(q, l)
            ELSE Before(q, f) \o Slice(q, l, p) \o Slice(q, f, l) \o From(q, p)

Base(c, st) ==
  LET as == c.args
      q == A(st)
  IN CASE c.op = "push_front" -> Just(Insert(st, 0, <<as[1]>>))
       [] c.op = "push_back"  -> Just(Insert(st, Len(q), <<as[1]>>))
       [] c.op = "pop_front"  -> Just(SetA(st, Tail(q)))
       [] c.op = "pop_back"   -> Just(SetA(st, Before(q, Len(q) - 1)))
       [] c.op = "insert1"    -> {Out(<<as[1]>>, Insert(st, as[1], <<as[2]>>))}
       [] c.op = "insertn"    -> Just(Insert(st, as[1], Rep(as[2], as[3])))
       [] c.op = "insertr"    -> Just(Insert(st, as[1], Tail(as)))
       [] c.op = "erase1"     -> {Out(<<as[1]>>, SetA(st, RemoveRange(q, as[1], as[1] + 1)))}
       [] c.op = "eraser"     -> {Out(<<as[1]>>, SetA(st, RemoveRange(q, as[1], as[2])))}
                                 \cup IF KnownErase /\ as[1] < as[2]
                                      THEN {Out(<<as[1] + 1>>, SetA(st, RemoveRange(q, as[1], as[2] - 1)))}
                                      ELSE {}
       [] c.op = "resize"     -> Just(Resized(st, as[1], 0))
       [] c.op = "resizev"    -> Just(Resized(st, as[1], as[2]))
       [] c.op = "assignn"    -> Become(st, Rep(as[1], as[2]))
       [] c.op = "assignr"    -> Become(st, as)
       [] c.op = "clear"      -> Become(st, <<>>)
       [] c.op = "remove"     -> Just(SetA(st, Filter(q, LAMBDA t : V(t) # as[1])))
       [] c.op = "remove_if"  -> Just(SetA(st, Filter(q, LAMBDA t : V(t) < as[1])))
       [] c.op = "unique"     -> Just(SetA(st, Uniq(0, q)))
       [] c.op = "unique_if"  -> Just(SetA(st, Uniq(1, q)))
       [] c.op = "splice_all" -> Just(SetAB(st, InsertAt(q, as[1], B(st)), <<>>))
       [] c.op = "splice_one" -> Just(SetAB(st, InsertAt(q, as[1], Slice(B(st), as[2], as[2] + 1)), RemoveRange(B(st), as[2], as[2] + 1)))
       [] c.op = "splice_range" -> Just(SetAB(st, InsertAt(q, as[1], Slice(B(st), as[2], as[3])), RemoveRange(B(st), as[2], as[3])))
       [] c.op = "move_one"   -> Just(SetA(st, IF as[1] \in {as[2], as[2] + 1} THEN q ELSE MoveWithin(q, as[1], as[2], as[2] + 1)))
       [] c.op = "move_range" -> Just(SetA(st, MoveWithin(q, as[1], as[2], as[3])))
       [] c.op = "merge"      -> Just(SetAB(st, Merge(LT, q, B(st)), <<>>))
       [] c.op = "merge_gt"   -> Just(SetAB(st, Merge(GT, q, B(st)), <<>>))
       [] c.op = "merge_half" -> Just(SetAB(st, Merge(HALF, q, B(st)), <<>>))
       [] c.op = "reverse"    -> Just(SetA(st, Reverse(q)))
       [] c.op = "write"      -> Just([st EXCEPT !.i[1][as[1] + 1][2] = as[2]])
       [] c.op = "ctor"       -> Become(st, <<>>)
       [] c.op = "ctornv"     -> Become(st, Rep(as[1], as[2]))
       [] c.op = "ctorr"      -> Become(st, as)
       [] c.op = "copy_ctor"  -> Just(SetAB(st, q, New(st, Vals(q))))
       [] c.op = "assign_ab"  -> Just(SetAB(st, New(st, Vals(B(st))), B(st)))
       [] c.op \in {"assign_self", "swap_self"} -> Just(st)
       [] c.op = "eq"         -> {Out(Compare(q, B(st)), st)}
       [] c.op = "swap"       -> Just(SetAB(st, B(st), q))
       \* the value argument is element as[1] of a itself
       [] c.op = "push_front_self" -> Just(Insert(st, 0, <<V(q[as[1] + 1])>>))
       [] c.op = "push_back_self" -> Just(Insert(st, Len(q), <<V(q[as[1] + 1])>>))
       [] c.op = "insert_self" -> {Out(<<as[2]>>, Insert(st, as[2], <<V(q[as[1] + 1])>>))}
       [] c.op = "insertn_self" -> Just(Insert(st, as[2], Rep(as[3], V(q[as[1] + 1]))))
       [] c.op = "resize_self" -> Just(Resized(st, as[2], V(q[as[1] + 1])))
       [] c.op = "remove_self" -> Just(SetA(st, Filter(q, LAMBDA t : V(t) # V(q[as[1] + 1]))))
       \* the cursor; next and prev reply the element arrived at (-1: the end)
       [] c.op = "place"      -> Just([st EXCEPT !.x = as])
       [] c.op = "next"       -> LET s == [st EXCEPT !.x[2] = @ + 1] IN {Out(<<IF AtEnd(s) THEN -1 ELSE V(s.i[s.x[1]][s.x[2] + 1])>>, s)}
       [] c.op = "prev"       -> LET s == [st EXCEPT !.x[2] = @ - 1] IN {Out(<<V(s.i[s.x[1]][s.x[2] + 1])>>, s)}
       [] c.op = "cursor_insert" -> {Out(<<st.x[2]>>, [st EXCEPT !.i[st.x[1]] = InsertAt(@, st.x[2], New(st, <<as[1]>>))])}
       [] c.op = "cursor_erase" -> {Out(<<>>, [st EXCEPT !.i[st.x[1]] = RemoveRange(@, st.x[2], st.x[2] + 1)])}

Reborn(c) == CASE c.op \in {"ctor", "ctornv", "ctorr"} -> {1} [] c.op = "copy_ctor" -> {2} [] OTHER -> {}
Positioning == {"place", "next", "prev", "cursor_erase"}
Step(c, st) == IF ~Cursor \/ c.op \in Positioning THEN Base(c, st)
               ELSE {Out(o.r, Follow(st, o.s, Reborn(c))) : o \in Base(c, st)}

-----------------------------------------------------------------------------
RangesOf(Vs, n) == UNION {[1..k -> Vs] : k \in 0..n}
Calls(st, Vs, MaxN, MaxR) ==
  LET n == Len(A(st))
      m == Len(B(st))
      pos == 0..n
      idx == 0..(n - 1)
  IN {Call(o, <<v>>) : o \in {"push_front", "push_back", "remove", "remove_if"}, v \in Vs}
     \cup (IF n = 0 THEN {} ELSE {Call("pop_front", <<>>), Call("pop_back", <<>>)})
     \cup {Call("insert1", <<p, v>>) : p \in pos, v \in Vs}
     \cup {Call("insertn", <<p, k, v>>) : p \in pos, k \in 0..MaxN, v \in Vs}
     \cup {Call("insertr", <<p>> \o r) : p \in pos, r \in RangesOf(Vs, MaxR)}
     \cup {Call("erase1", <<p>>) : p \in idx}
     \cup {Call("eraser", <<f, l>>) : f \in pos, l \in pos}
     \cup {Call("resize", <<k>>) : k \in 0..(n + MaxN)}
     \cup {Call("resizev", <<k, v>>) : k \in 0..(n + MaxN), v \in Vs}
     \cup {Call("assignn", <<k, v>>) : k \in 0..MaxN, v \in Vs}
     \cup {Call("assignr", r) : r \in RangesOf(Vs, MaxR)}
     \cup {Call(o, <<>>) : o \in {"clear", "unique", "unique_if", "reverse", "ctor", "copy_ctor", "assign_ab", "assign_self", "swap", "swap_self", "eq"}}
     \cup {Call("splice_all", <<p>>) : p \in pos}
     \cup {Call("splice_one", <<p, f>>) : p \in pos, f \in 0..(m - 1)}
     \cup {Call("splice_range", <<p, f, l>>) : p \in pos, f \in 0..m, l \in 0..m}
     \cup {Call("move_one", <<p, f>>) : p \in pos, f \in idx}
     \cup {Call("move_range", <<p, f, l>>) : p \in pos, f \in pos, l \in pos}
     \cup (IF Sorted(LT, A(st)) /\ Sorted(LT, B(st)) THEN {Call("merge", <<>>)} ELSE {})
     \cup (IF Sorted(GT, A(st)) /\ Sorted(GT, B(st)) THEN {Call("merge_gt", <<>>)} ELSE {})
     \cup (IF Sorted(HALF, A(st)) /\ Sorted(HALF, B(st)) THEN {Call("merge_half", <<>>)} ELSE {})
     \cup {Call("write", <<p, v>>) : p \in idx, v \in Vs}
     \cup {Call("ctornv", <<k, v>>) : k \in 0..MaxN, v \in Vs}
     \cup {Call("ctorr", r) : r \in RangesOf(Vs, MaxR)}
     \cup {Call(o, <<p>>) : o \in {"push_front_self", "push_back_self", "remove_self"}, p \in idx}
     \cup {Call("insert_self", <<i, p>>) : i \in idx, p \in pos}
     \cup {Call("insertn_self", <<i, p, k>>) : i \in idx, p \in pos, k \in 2..MaxN}
     \cup {Call("resize_self", <<i, k>>) : i \in idx, k \in (n + 1)..(n + MaxN)}
     \cup IF ~Cursor THEN {} ELSE
          {Call("place", <<1, p>>) : p \in pos} \cup {Call("place", <<2, p>>) : p \in 0..m}
          \cup IF ~Valid(st) THEN {} ELSE
               (IF AtEnd(st) THEN {} ELSE {Call("next", <<>>), Call("cursor_erase", <<>>)})
               \cup (IF st.x[2] = 0 THEN {} ELSE {Call("prev", <<>>)})
               \cup {Call("cursor_insert", <<v>>) : v \in Vs}
Legal(c, st) ==
  LET as == c.args
  IN CASE c.op = "eraser" -> as[1] <= as[2]
       [] c.op = "splice_range" -> as[2] <= as[3]
       [] c.op = "move_range" -> as[2] <= as[3] /\ (as[1] < as[2] \/ as[1] >= as[3])
       [] OTHER -> TRUE
=============================================================================
