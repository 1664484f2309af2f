------------------------------- MODULE Heads -------------------------------
(***************************************************************************)
(* The headers as the parts of a program: which features of the library a  *)
(* translation unit can use after including headers in some order, next to *)
(* a second unit of the same program that includes the same headers in the *)
(* reverse order.                                                          *)
(*                                                                         *)
(* A state is a program: mode (how it is compiled), and the headers the    *)
(* units a and b include, in order.  A header may be included repeatedly.  *)
(* "The feature headers should be usable on their own, unless the code     *)
(* needs features from the others" (ttl.hpp): Need says which others.      *)
(***************************************************************************)
EXTENDS Common, Json, SequencesExt
CONSTANTS Modes,       \* ways to compile a program
          Long,        \* those in which up to Depth headers are included ...
          Depth        \* ... in any order; in the others one, or all
VARIABLES mode, a, b

Listed == <<"types", "type_traits", "functional", "utility", "algorithm", "array", "vector", "fixed_vector", "forward_list", "backward_list",
            "lazy_queue", "list", "map", "set", "vector_map", "sorted_vector_map", "bitset">>    \* what ttl.hpp offers
Alone == {"numeric", "rbtree", "slist_node"}
Headers == ToSet(Listed) \cup Alone \cup {"ttl"}

\* What a feature needs: the header it is declared in, and those which
\* declare the functions it calls on the elements.
Need ==
  [f \in ToSet(Listed) \cup Alone |-> {f} \cup (IF f = "rbtree" THEN {"utility"} ELSE {})]
  @@ [f \in {"vector_algorithm", "list_algorithm", "array_algorithm", "fixed_vector_algorithm", "forward_list_algorithm", "backward_list_algorithm", "map_algorithm", "set_algorithm"} |->
        {"algorithm"} \cup {CASE f = "vector_algorithm" -> "vector" [] f = "list_algorithm" -> "list" [] f = "array_algorithm" -> "array"
                              [] f = "fixed_vector_algorithm" -> "fixed_vector" [] f = "forward_list_algorithm" -> "forward_list"
                              [] f = "backward_list_algorithm" -> "backward_list" [] f = "map_algorithm" -> "map" [] OTHER -> "set"}]
  @@ [f \in {"vector_utility", "forward_list_utility", "backward_list_utility", "lazy_queue_utility"} |->
        {"utility"} \cup {CASE f = "vector_utility" -> "vector" [] f = "forward_list_utility" -> "forward_list"
                            [] f = "backward_list_utility" -> "backward_list" [] OTHER -> "lazy_queue"}]
  @@ ("array_swap" :> {"array", "algorithm", "utility"})
  @@ ("fixed_vector_swap" :> {"fixed_vector", "algorithm", "utility"})
  @@ ("algorithm_pair" :> {"algorithm", "utility"})
  @@ ("algorithm_swap" :> {"algorithm", "utility"})
  @@ ("algorithm_move" :> {"algorithm", "utility", "type_traits"})
  @@ ("move" :> {"utility", "type_traits"})
Features == DOMAIN Need

Sees(q) == ToSet(q) \cup (IF "ttl" \in ToSet(q) THEN ToSet(Listed) ELSE {})
Usable(q) == {f \in Features : Need[f] \subseteq Sees(q)}

\* Orders of all the headers: as listed, rotated by k.
All == <<"numeric", "rbtree", "slist_node">> \o Listed
Rotated(k) == [i \in 1..Len(All) |-> All[((i + k - 1) % Len(All)) + 1]]

Init == /\ mode \in Modes
        /\ a \in {<<>>} \cup {Rotated(k) : k \in IF mode \in Long THEN 0..(Len(All) - 1) ELSE {0}}
        /\ b = Reverse(a)
Include(h) == /\ Len(a) < IF mode \in Long THEN Depth ELSE 1
              /\ a' = Append(a, h)
              /\ b' = <<h>> \o b
              /\ UNCHANGED mode
Next == \E h \in Headers : Include(h)
Spec == Init /\ [][Next]_<<mode, a, b>>

\* The order does not matter, nor does including again what is there.
Order == Usable(a) = Usable(b)
Again == \A h \in ToSet(a) : Usable(Append(a, h)) = Usable(a)
\* A header alone offers its feature, and ttl.hpp all but those of Alone.
Own == \A h \in ToSet(a) : h # "ttl" => (Need[h] \subseteq Sees(a)) \/ (h = "rbtree")
Whole == "ttl" \in ToSet(a) => \A f \in Features : Need[f] \cap Alone = {} => f \in Usable(a)
Inv == Order /\ Again /\ Own /\ Whole
\* More headers, more features.
Grows == [][Usable(a) \subseteq Usable(a') /\ Usable(b) \subseteq Usable(b')]_<<mode, a, b>>
=============================================================================
