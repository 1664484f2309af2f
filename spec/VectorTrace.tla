---------------------------- MODULE VectorTrace ----------------------------
(***************************************************************************)
(* Accepts recorded histories of ttl::vector / ttl::fixed_vector.  With    *)
(* Store = TRUE also the storage contract of vector (capacity, relocation) *)
(* is judged, from e.aux = <<capacity of a, capacity of b, storage of a    *)
(* moved during the call (0/1)>>.                                          *)
(***************************************************************************)
EXTENDS Vector, Json, IOUtils
CONSTANTS UseIds, Store
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, cap

Shrinking == {"pop_back", "erase1", "eraser", "clear"}
Inserting == {"push_back", "insert1", "insertn", "insertr", "push_self", "insert_self", "insertn_self"}
Resizing == {"resize", "resizev", "resize_self"}
InPlace == {"write", "assign_self", "swap_self", "eq"}

\* Index of the first element the call may touch.
Pos(c, n) == CASE c.op \in {"push_back", "push_self"} -> n
               [] c.op = "pop_back" -> n - 1
               [] c.op \in {"insert1", "insertn", "insertr", "erase1", "eraser"} -> c.args[1]
               [] c.op \in {"insert_self", "insertn_self"} -> c.args[2]
               [] c.op \in {"resize", "resizev"} -> Min2(n, c.args[1])
               [] c.op = "resize_self" -> n
               [] c.op = "clear" -> 0
               [] OTHER -> n

SamePrefix(p, q, n) == \A k \in 1..n : p[k][1] = q[k][1]

StoreOK(c, s, e) ==
  LET n == Len(s.i[1])
      m == Len(e.i[1])
      capA == e.aux[1]
      moved == e.aux[3] = 1
      stays == capA = cap[1] /\ ~moved
  IN /\ capA >= m /\ e.aux[2] >= Len(e.i[2])
     /\ c.op \in Shrinking \cup InPlace => stays
     /\ (c.op \in Inserting \cup Resizing /\ m <= cap[1]) => stays
     /\ c.op = "reserve" => capA >= c.args[1] /\ (c.args[1] <= cap[1] => stays)
     /\ (c.op \in Shrinking \cup Inserting \cup Resizing /\ ~moved)
           => SamePrefix(s.i[1], e.i[1], Min2(m, Pos(c, n)))
     /\ c.op \in InPlace => SamePrefix(s.i[1], e.i[1], n)

Init == l = 1 /\ st = Init0 /\ cap = <<0, 0>>
Next ==
  /\ l <= Len(Log)
  /\ LET e == Log[l]
         c == Call(e.op, e.args)
     IN IF e.op = "reset"
        THEN /\ e.i = Init0.i
             /\ st' = Init0
             /\ cap' = IF Store THEN SubSeq(e.aux, 1, 2) ELSE cap
        ELSE LET all == Step(c, st)
                 ok == {o \in all : Explains(o, e, st, UseIds) /\ (Store => StoreOK(c, st, e))}
             IN IF ok = {} THEN PrintT(<<"REJECT", l, e.op, e.args, all, e>>) /\ FALSE
                ELSE \E o \in ok :
                       /\ st' = Adopt(o, e)
                       /\ cap' = IF Store THEN SubSeq(e.aux, 1, 2) ELSE cap
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st, cap>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STUCK", TLCGet("stats").diameter>>)
=============================================================================
