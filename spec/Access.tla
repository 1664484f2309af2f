------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* The ways from a container to its elements, as far as types go: which    *)
(* of them designate an element that can be modified, and that all of them *)
(* designate the element itself, never a copy of it.                       *)
(*                                                                         *)
(* A state is a PATH: a container of some kind, const or not, followed by  *)
(* steps.  Cat says what the path arrives at:                              *)
(*   [c |-> "cont"] the container           [c |-> "iter", lv |-> ...] an  *)
(*   [c |-> "ref"]  an element (lvalue)      iterator, lv: an lvalue       *)
(*   [c |-> "ptr"]  pointer to an element   [c |-> "key"], [c |-> "mapped"]*)
(*   [c |-> "pair"] two iterators            the halves of an element      *)
(* and `const' whether it can be modified through it.                      *)
(***************************************************************************)
EXTENDS Common, Json
CONSTANTS Kinds, Depth
VARIABLES kind, path, cat

Pointers == {"vector", "fixed_vector", "array", "vector_map"}   \* iterators are pointers
Singly == {"forward_list", "backward_list", "lazy_queue"}
Tree == {"map", "set"}
Keyed == {"map", "set", "sorted_vector_map", "vector_map"}
Pairs == {"map", "sorted_vector_map", "vector_map"}            \* elements are pairs

It(c, lv) == [c |-> "iter", const |-> c, lv |-> lv]
To(what, c) == [c |-> what, const |-> c, lv |-> TRUE]

\* <<step, result>> of a container of kind k, const or not.
FromContainer(k, c) ==
     {<<o, It(c, FALSE)>> : o \in {"begin", "end"}} \cup {<<o, It(TRUE, FALSE)>> : o \in {"cbegin", "cend"}}
  \cup (IF k \in Singly THEN {<<"before_begin", It(c, FALSE)>>, <<"cbefore_begin", It(TRUE, FALSE)>>} ELSE {})
  \cup (IF k \in {"backward_list", "lazy_queue"} THEN {<<"before_end", It(c, FALSE)>>, <<"cbefore_end", It(TRUE, FALSE)>>} ELSE {})
  \cup (IF k \in Keyed THEN {} ELSE {<<"front", To("ref", c)>>})
  \cup (IF k \in Keyed \cup {"forward_list"} THEN {} ELSE {<<"back", To("ref", c)>>})
  \cup (IF k \in {"vector", "fixed_vector", "array"} THEN {<<"index", To("ref", c)>>, <<"at", To("ref", c)>>, <<"data", To("ptr", c)>>} ELSE {})
  \cup (IF k \in Keyed THEN {<<"find", It(c, FALSE)>>} ELSE {})
  \cup (IF k \in Keyed \ {"vector_map"} THEN {<<"lower_bound", It(c, FALSE)>>, <<"upper_bound", It(c, FALSE)>>, <<"equal_range", To("pair", c)>>} ELSE {})
  \cup (IF k \in Pairs THEN {<<"at", To("mapped", c)>>} ELSE {})
  \cup (IF k \in Pairs /\ ~c THEN {<<"index", To("mapped", FALSE)>>} ELSE {})
  \cup (IF k \in Keyed /\ ~c THEN {<<"insert", It(FALSE, FALSE)>>} ELSE {})

FromIterator(k, i) ==
     {<<"deref", To("ref", i.const)>>, <<"preinc", It(i.const, TRUE)>>, <<"postinc", It(i.const, FALSE)>>, <<"toconst", It(TRUE, FALSE)>>}
  \cup (IF k \in Pointers THEN {<<"index", To("ref", i.const)>>, <<"plus", It(i.const, FALSE)>>} ELSE {<<"arrow", To("ptr", i.const)>>})
  \cup (IF k \in Singly THEN {} ELSE {<<"predec", It(i.const, TRUE)>>, <<"postdec", It(i.const, FALSE)>>})

\* The key of a map is const however it is reached.
FromElement(k, e) == IF k \in Pairs THEN {<<"first", To("key", e.const \/ k = "map")>>, <<"second", To("mapped", e.const)>>} ELSE {}

Steps == CASE cat.c = "cont" -> FromContainer(kind, cat.const)
           [] cat.c = "iter" -> FromIterator(kind, cat)
           [] cat.c = "ptr"  -> {<<"deref", To("ref", cat.const)>>}
           [] cat.c = "ref"  -> FromElement(kind, cat)
           [] cat.c = "pair" -> {<<"first", It(cat.const, TRUE)>>, <<"second", It(cat.const, TRUE)>>}
           [] OTHER -> {}

Init == /\ kind \in Kinds
        /\ \E c \in BOOLEAN : cat = To("cont", c) /\ path = <<IF c THEN "const" ELSE "mutable">>
Next == /\ Len(path) <= Depth
        /\ \E s \in Steps : path' = Append(path, s[1]) /\ cat' = s[2]
        /\ kind' = kind
Spec == Init /\ [][Next]_<<kind, path, cat>>

\* What must be true of every path.
Inv == /\ path[1] = "const" => cat.const \* a const container shows only const elements
       /\ (\E n \in 2..Len(path) : path[n] \in {"cbegin", "cend", "cbefore_begin", "cbefore_end", "toconst"}) => cat.const
       /\ (kind = "map" /\ cat.c = "key") => cat.const
       \* and nothing else takes the right to modify away
       /\ cat.const => \/ path[1] = "const"
                       \/ \E n \in 2..Len(path) : path[n] \in {"cbegin", "cend", "cbefore_begin", "cbefore_end", "toconst"}
                       \/ kind = "map" /\ cat.c = "key"
\* Once const, always const.
Never == [][cat.const => cat'.const]_<<kind, path, cat>>
=============================================================================
