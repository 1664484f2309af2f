------------------------------- MODULE SList -------------------------------
(***************************************************************************)
(* The singly linked containers: Kind = "forward" (ttl::forward_list),     *)
(* "backward" (ttl::backward_list) or "lazy" (ttl::lazy_queue).            *)
(*                                                                         *)
(* Positions name the node AFTER which something happens: 0 is             *)
(* before_begin(), k the k-th element, Len + 1 the end.                    *)
(*                                                                         *)
(* lazy_queue keeps the nodes of removed elements.  The numbers of kept    *)
(* nodes are hidden state, h = <<kept by a, kept by b>>; with Mem = TRUE   *)
(* every reply ends in <<allocations, deallocations>> of the call.         *)
(***************************************************************************)
EXTENDS Common
CONSTANTS Kind, Mem, Cursor

A(st) == st.i[1]
B(st) == st.i[2]
Lazy == Kind = "lazy"
Start0 == [i |-> <<<<>>, <<>>>>, x |-> IF Cursor THEN <<0, 0>> ELSE <<>>]
Init0 == IF Lazy THEN Start0 @@ [h |-> <<0, 0>>] ELSE Start0

SetA(st, q) == [st EXCEPT !.i[1] = q]
SetAB(st, p, q) == [st EXCEPT !.i = <<p, q>>]
Just(s) == {Out(<<>>, s)}
Become(st, vs) == Just(SetA(st, New(st, vs)))
\* Insert after position p; the new elements are p + 1 ...
Insert(st, p, vs) == SetA(st, InsertAt(A(st), p, New(st, vs)))
\* Nodes strictly between positions p and l.
Between(q, p, l) == Slice(q, p, l - 1)
Without(q, p, l) == RemoveRange(q, p, l - 1)
MoveWithin(q, p, f, l) == \* nodes between f and l to after p
  IF p <= f THEN Before(q, p) \o Between(q, f, l) \o Slice(q, p, f) \o From(q, l - 1)
            ELSE Before(q, f) \o Slice(q, l - 1, p) \o Between(q, f, l) \o From(q, p)

Base(c, st) ==
  LET as == c.args
      q == A(st)
  IN CASE c.op = "push_front" -> Just(Insert(st, 0, <<as[1]>>))
       [] c.op = "push_back"  -> Just(Insert(st, Len(q), <<as[1]>>))
       [] c.op = "pop_front"  -> Just(SetA(st, Tail(q)))
       [] c.op = "insert1"    -> {Out(<<as[1] + 1>>, Insert(st, as[1], <<as[2]>>))}
       \* after before_end()
       [] c.op = "insert_end" -> {Out(<<Len(q) + 1>>, Insert(st, Len(q), <<as[1]>>))}
       [] c.op = "insertn"    -> Just(Insert(st, as[1], Rep(as[2], as[3])))
       [] c.op = "insertr"    -> Just(Insert(st, as[1], Tail(as)))
       [] c.op = "erase1"     -> {Out(<<as[1] + 1>>, SetA(st, Without(q, as[1], as[1] + 2)))}
       [] c.op = "eraser"     -> {Out(<<as[1] + 1>>, SetA(st, Without(q, as[1], as[2])))}
       [] c.op = "assignn"    -> Become(st, Rep(as[1], as[2]))
       [] c.op = "assignr"    -> Become(st, as)
       [] c.op = "clear"      -> Become(st, <<>>)
       [] c.op = "splice_all" -> Just(SetAB(st, InsertAt(q, as[1], B(st)), <<>>))
       [] c.op = "splice_one" -> Just(SetAB(st, InsertAt(q, as[1], Between(B(st), as[2], as[2] + 2)), Without(B(st), as[2], as[2] + 2)))
       [] c.op = "splice_range" -> Just(SetAB(st, InsertAt(q, as[1], Between(B(st), as[2], as[3])), Without(B(st), as[2], as[3])))
       [] c.op = "move_one"   -> Just(SetA(st, IF as[1] \in {as[2], as[2] + 1} THEN q ELSE MoveWithin(q, as[1], as[2], as[2] + 2)))
       [] c.op = "move_range" -> Just(SetA(st, MoveWithin(q, as[1], as[2], as[3])))
       [] c.op = "reverse"    -> Just(SetA(st, Reverse(q)))
       [] c.op = "roll_head"  -> Just(SetA(st, IF q = <<>> THEN q ELSE Append(Tail(q), Head(q))))
       [] c.op = "cleanup"    -> Just(st)
       [] c.op = "write"      -> Just([st EXCEPT !.i[1][as[1]][2] = as[2]])
       [] c.op = "ctor"       -> Become(st, <<>>)
       [] c.op = "ctornv"     -> Become(st, Rep(as[1], as[2]))
       [] c.op = "ctorr"      -> Become(st, as)
       [] c.op = "copy_ctor"  -> Just(SetAB(st, q, New(st, Vals(q))))
       [] c.op = "assign_ab"  -> Just(SetAB(st, New(st, Vals(B(st))), B(st)))
       [] c.op \in {"assign_self", "swap_self"} -> Just(st)
       [] c.op = "eq"         -> {Out(Compare(q, B(st)), st)}
       [] c.op = "swap"       -> Just(SetAB(st, B(st), q))
       \* the value argument is the element at position as[1] of a itself
       [] c.op = "push_front_self" -> Just(Insert(st, 0, <<V(q[as[1]])>>))
       [] c.op = "push_back_self" -> Just(Insert(st, Len(q), <<V(q[as[1]])>>))
       [] c.op = "insert_self" -> {Out(<<as[2] + 1>>, Insert(st, as[2], <<V(q[as[1]])>>))}
       [] c.op = "insertn_self" -> Just(Insert(st, as[2], Rep(as[3], V(q[as[1]]))))
       \* the cursor designates elements only (x = <<instance, 0-based index>>)
       [] c.op = "place"      -> Just([st EXCEPT !.x = as])
       [] c.op = "next"       -> LET s == [st EXCEPT !.x[2] = @ + 1]
                                 IN IF AtEnd(s) THEN {Out(<<-1>>, [s EXCEPT !.x = <<0, 0>>])}
                                    ELSE {Out(<<V(s.i[s.x[1]][s.x[2] + 1])>>, s)}
       [] c.op = "cursor_insert" -> {Out(<<st.x[2] + 2>>, [st EXCEPT !.i[st.x[1]] = InsertAt(@, st.x[2] + 1, New(st, <<as[1]>>))])}
       [] c.op = "cursor_erase" -> {Out(<<st.x[2] + 2>>, [st EXCEPT !.i[st.x[1]] = RemoveRange(@, st.x[2] + 1, st.x[2] + 2)])}

Positioning == {"place", "next"}
Followed(c, st) == IF ~Cursor \/ c.op \in Positioning THEN Base(c, st)
                   ELSE {Out(o.r, Follow(st, o.s, {})) : o \in Base(c, st)}

-----------------------------------------------------------------------------
(* Kept nodes of a lazy_queue.                                             *)
Adding == {"push_front", "push_back", "insert1", "insert_end", "insertn", "insertr", "push_front_self", "push_back_self", "insert_self",
           "insertn_self", "cursor_insert"}
Removing == {"pop_front", "erase1", "eraser", "clear", "cursor_erase"}
\* <<allocations, deallocations, kept by a, kept by b>>
Nodes(c, s, ns) ==
  LET n == Len(A(s)) m == Len(B(s)) pa == s.h[1] pb == s.h[2]
      w == IF c.op \in {"cursor_insert", "cursor_erase"} THEN s.x[1] ELSE 1
      d == Len(ns.i[w]) - Len(s.i[w])
      put(k, p) == IF w = 1 THEN <<k[1], k[2], p, pb>> ELSE <<k[1], k[2], pa, p>>
      p == s.h[w]
  IN CASE c.op \in Adding -> put(<<Max2(0, d - p), 0>>, Max2(0, p - d))
       [] c.op \in Removing -> put(<<0, 0>>, p - d)
       [] c.op = "cleanup" -> <<0, pa, 0, pb>>
       [] c.op \in {"ctor", "ctornv"} -> <<Len(A(ns)), n + pa, 0, pb>>
       [] c.op = "copy_ctor" -> <<n, m + pb, pa, 0>>
       [] c.op = "assign_ab" -> <<Max2(0, m - (n + pa)), 0, Max2(0, n + pa - m), pb>>
       [] OTHER -> <<0, 0, pa, pb>>
Step(c, st) ==
  IF ~Lazy THEN Followed(c, st)
  ELSE {LET k == Nodes(c, st, o.s)
        IN Out(IF Mem THEN o.r \o <<k[1], k[2]>> ELSE o.r, [o.s EXCEPT !.h = <<k[3], k[4]>>]) : o \in Followed(c, st)}

-----------------------------------------------------------------------------
RangesOf(Vs, n) == UNION {[1..k -> Vs] : k \in 0..n}
Calls(st, Vs, MaxN, MaxR) ==
  LET n == Len(A(st))
      m == Len(B(st))
      pos == 0..n
      ele == 1..n
      Forward == Kind = "forward"
      tail == Kind \in {"backward", "lazy"}
      rev == Kind \in {"forward", "backward"}
  IN {Call("push_front", <<v>>) : v \in Vs}
     \cup (IF tail THEN {Call(o, <<v>>) : o \in {"push_back", "insert_end"}, v \in Vs} ELSE {})
     \cup (IF n = 0 THEN {} ELSE {Call("pop_front", <<>>)})
     \cup {Call("insert1", <<p, v>>) : p \in pos, v \in Vs}
     \cup {Call("insertn", <<p, k, v>>) : p \in pos, k \in 0..MaxN, v \in Vs}
     \cup {Call("insertr", <<p>> \o r) : p \in pos, r \in RangesOf(Vs, MaxR)}
     \cup {Call("erase1", <<p>>) : p \in 0..(n - 1)}
     \cup {Call("eraser", <<f, l>>) : f \in pos, l \in 1..(n + 1)}
     \cup {Call(o, <<>>) : o \in {"clear", "ctor", "copy_ctor", "assign_ab", "assign_self", "swap", "swap_self"}}
     \cup (IF rev THEN {Call("reverse", <<>>), Call("eq", <<>>)}
                       \cup {Call("assignn", <<k, v>>) : k \in 0..MaxN, v \in Vs}
                       \cup {Call("assignr", r) : r \in RangesOf(Vs, MaxR)}
                       \cup {Call("ctorr", r) : r \in RangesOf(Vs, MaxR)}
                  ELSE {Call("roll_head", <<>>), Call("cleanup", <<>>)})
     \cup (IF Forward THEN {Call("splice_all", <<p>>) : p \in pos}
                           \cup {Call("splice_one", <<p, f>>) : p \in pos, f \in 0..(m - 1)}
                           \cup {Call("splice_range", <<p, f, l>>) : p \in pos, f \in 0..m, l \in 1..(m + 1)}
                           \cup {Call("move_one", <<p, f>>) : p \in pos, f \in 0..(n - 1)}
                           \cup {Call("move_range", <<p, f, l>>) : p \in pos, f \in pos, l \in 1..(n + 1)}
                      ELSE {})
     \cup {Call("write", <<p, v>>) : p \in ele, v \in Vs}
     \cup {Call("ctornv", <<k, v>>) : k \in 0..MaxN, v \in Vs}
     \cup {Call("push_front_self", <<p>>) : p \in ele}
     \cup (IF tail THEN {Call("push_back_self", <<p>>) : p \in ele} ELSE {})
     \cup {Call("insert_self", <<i, p>>) : i \in ele, p \in pos}
     \cup {Call("insertn_self", <<i, p, k>>) : i \in ele, p \in pos, k \in 2..MaxN}
     \cup IF ~Cursor THEN {} ELSE
          {Call("place", <<1, p>>) : p \in 0..(n - 1)} \cup {Call("place", <<2, p>>) : p \in 0..(m - 1)}
          \cup IF ~Valid(st) THEN {} ELSE
               {Call("next", <<>>)}
               \cup {Call("cursor_insert", <<v>>) : v \in Vs}
               \cup IF st.x[2] + 1 < Len(st.i[st.x[1]]) THEN {Call("cursor_erase", <<>>)} ELSE {}
Legal(c, st) ==
  LET as == c.args
  IN CASE c.op = "eraser" -> as[1] < as[2]
       [] c.op = "splice_range" -> as[2] < as[3]
       [] c.op = "move_range" -> as[2] < as[3] /\ (as[1] <= as[2] \/ as[1] >= as[3])
       [] OTHER -> TRUE
=============================================================================
