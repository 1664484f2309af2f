------------------------------- MODULE Bits -------------------------------
(***************************************************************************)
(* ttl::bitset<N>: two bitsets, each the sequence of its N bits (token     *)
(* <<k, bit>> at 1-based index k is bit number k - 1).                     *)
(*                                                                         *)
(* The code leaves bits beyond N in the last word undefined; they must     *)
(* never show.  With Dirty = TRUE hidden state h = <<a dirty, b dirty>>    *)
(* tells whether those bits may have been set, so that exploration tries   *)
(* every call both with and without them.                                  *)
(***************************************************************************)
EXTENDS Common
CONSTANTS N, Dirty

Mk(F(_)) == [k \in 1..N |-> <<k, F(k - 1)>>]
Zero == Mk(LAMBDA p : 0)
Start0 == [i |-> <<Zero, Zero>>, x |-> <<>>] 
Init0 == IF Dirty THEN Start0 @@ [h |-> <<0, 0>>] ELSE Start0
A(st) == st.i[1]
B(st) == st.i[2]
At(q, p) == p >= 0 /\ p < Len(q) /\ q[p + 1][2] = 1
Put(q, p, b) == [q EXCEPT ![p + 1][2] = b]

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
BitOf(v, j) == (v \div Pow(j)) % 2
\* Bit p of an integer given as words of 16 bits, the lowest first.
WordBit(ws, p) == IF p \div 16 + 1 > Len(ws) THEN 0 ELSE BitOf(ws[p \div 16 + 1], p % 16)
Sum16(q, w) == LET F[j \in 0..16] == IF j = 0 THEN 0 ELSE F[j - 1] + Bit(At(q, 16 * w + j - 1)) * Pow(j - 1) IN F[16]
Words(q) == <<Sum16(q, 0), Sum16(q, 1), Sum16(q, 2), Sum16(q, 3)>>   \* the low 64 bits
Count(q) == Cardinality({k \in 1..Len(q) : q[k][2] = 1})

\* Characters: 0 and 1 stand for themselves, anything else ends the number.
RECURSIVE Leading(_, _)
Leading(cs, n) == IF cs = <<>> \/ n = 0 \/ Head(cs) \notin {0, 1} THEN 0 ELSE 1 + Leading(Tail(cs), n - 1)
FromStr(cs, n) == LET len == Leading(cs, n) IN Mk(LAMBDA p : IF p < len THEN cs[len - p] ELSE 0)

Same(p, q) == \A k \in 1..N : p[k][2] = q[k][2]
Just(s) == {Out(<<>>, s)}
SetA(st, F(_)) == Just([st EXCEPT !.i[1] = Mk(F)])

Base(c, st) ==
  LET as == c.args
      a == A(st)
      b == B(st)
      p == as[1]
  IN CASE c.op \in {"set", "unset", "flip", "setv"} /\ N = 0 -> Just(st)   \* nothing there to change
       [] c.op = "set"      -> Just([st EXCEPT !.i[1] = Put(@, p, 1)])
       [] c.op = "unset"    -> Just([st EXCEPT !.i[1] = Put(@, p, 0)])
       [] c.op = "flip"     -> Just([st EXCEPT !.i[1] = Put(@, p, 1 - Bit(At(a, p)))])
       [] c.op = "setv"     -> Just([st EXCEPT !.i[1] = Put(@, p, as[2])])
       [] c.op = "set_all"  -> SetA(st, LAMBDA j : 1)
       [] c.op = "reset_all" -> SetA(st, LAMBDA j : 0)
       [] c.op = "flip_all" -> SetA(st, LAMBDA j : 1 - Bit(At(a, j)))
       \* through reference proxies: a[p] = value, a[p] = a[q], a[p] = b[q], a[p].flip()
       [] c.op = "ref_set"  -> Just([st EXCEPT !.i[1] = Put(@, p, as[2])])
       [] c.op = "ref_aa"   -> Just([st EXCEPT !.i[1] = Put(@, p, Bit(At(a, as[2])))])
       [] c.op = "ref_ab"   -> Just([st EXCEPT !.i[1] = Put(@, p, Bit(At(b, as[2])))])
       [] c.op = "ref_flip" -> {Out(<<Bit(~At(a, p))>>, [st EXCEPT !.i[1] = Put(@, p, 1 - Bit(At(a, p)))])}
       [] c.op = "not"      -> SetA(st, LAMBDA j : 1 - Bit(At(a, j)))
       \* a op= b, and a = a op b; *_self: a op= a
       [] c.op \in {"and", "and3"} -> SetA(st, LAMBDA j : Bit(At(a, j) /\ At(b, j)))
       [] c.op \in {"or", "or3"}   -> SetA(st, LAMBDA j : Bit(At(a, j) \/ At(b, j)))
       [] c.op \in {"xor", "xor3"} -> SetA(st, LAMBDA j : Bit(At(a, j) # At(b, j)))
       [] c.op \in {"and_self", "or_self"} -> Just(st)
       [] c.op = "xor_self" -> SetA(st, LAMBDA j : 0)
       \* a <<= k, a = a << k, likewise to the right
       \* (by very many when negative: see Far)
       [] c.op \in {"shl", "shl3", "shr", "shr3"} /\ p < 0 -> SetA(st, LAMBDA j : 0)
       [] c.op \in {"shl", "shl3"} -> SetA(st, LAMBDA j : Bit(At(a, j - p)))
       [] c.op \in {"shr", "shr3"} -> SetA(st, LAMBDA j : Bit(At(a, j + p)))
       [] c.op = "ctor"     -> SetA(st, LAMBDA j : 0)
       [] c.op = "copy_ctor" -> Just([st EXCEPT !.i[2] = a])
       [] c.op = "assign_ab" -> Just([st EXCEPT !.i[1] = b])
       [] c.op = "assign_self" -> Just(st)
       \* from unsigned long, unsigned long long: four words of 16 bits
       [] c.op \in {"from_ul", "from_ull"} -> SetA(st, LAMBDA j : WordBit(as, j))
       \* from the string Tail(as), at most as[1] characters (-1: no limit);
       \* from_str2 with other characters for zero and one
       [] c.op \in {"from_str", "from_str2"} -> Just([st EXCEPT !.i[1] = FromStr(Tail(as), p)])
       \* to bitset<M> and back; reply: the members in bitset<M>, their number
       \* conv constructs, conv_as assigns, conv_op uses the conversion operator
       [] c.op \in {"conv", "conv_as", "conv_op"} ->
            LET m == Min2(N, p)
                in == SelectSeq([k \in 1..m |-> k - 1], LAMBDA j : At(a, j))
            IN {Out(<<Len(in)>> \o in, [st EXCEPT !.i[1] = Mk(LAMBDA j : Bit(j < m /\ At(a, j)))])}
       \* to_ulong and to_ullong
       [] c.op = "num"      -> {Out(Words(a) \o Words(a), st)}
       \* a against bitset<0>: 0 == a, a == 0, 0 != a, a != 0
       [] c.op = "zero"     -> LET z == Bit(Count(a) = 0) IN {Out(<<z, z, 1 - z, 1 - z>>, st)}
       \* count, any, none, a == b, a != b, a == a, size, all (of no bits: not asked)
       [] c.op = "ask"      -> {Out(<<Count(a), Bit(Count(a) > 0), Bit(Count(a) = 0), Bit(Same(a, b)), Bit(~Same(a, b)), 1, N>>
                                    \o (IF N = 0 THEN <<>> ELSE <<Bit(Count(a) = N)>>), st)}

DirtyAfter(c, st) ==
  LET a == st.h[1]
      b == st.h[2]
  IN CASE c.op \in {"set_all", "from_ul", "from_ull"} -> <<1, b>>
       [] c.op \in {"flip_all", "not"} -> <<1 - a, b>>
       [] c.op \in {"reset_all", "ctor", "xor_self", "shl", "shl3", "shr", "shr3", "from_str", "from_str2", "conv", "conv_as", "conv_op"} -> <<0, b>>
       [] c.op \in {"and", "and3"} -> <<a * b, b>>
       [] c.op \in {"or", "or3"} -> <<Max2(a, b), b>>
       [] c.op \in {"xor", "xor3"} -> <<Bit(a # b), b>>
       [] c.op = "copy_ctor" -> <<a, a>>
       [] c.op = "assign_ab" -> <<b, b>>
       [] OTHER -> st.h
Step(c, st) == IF ~Dirty THEN Base(c, st) ELSE {Out(o.r, [o.s EXCEPT !.h = DirtyAfter(c, st)]) : o \in Base(c, st)}

-----------------------------------------------------------------------------
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE {<<c>> \o s : c \in 0..2, s \in Strings(n - 1)}
\* Numbers greater than any of TLC's: -k is the greatest of size_t but k - 1,
\* -100 - k is 2^32 + k.
Far == (-(N + 2))..(-1) \cup (-(101 + N))..(-100)
\* Ms: sizes to convert to
Calls(st, Ms, MaxS) ==
  LET pos == 0..(N - 1)
      strs == UNION {Strings(n) : n \in 0..MaxS}
  IN {Call(o, <<p>>) : o \in {"set", "unset", "flip", "ref_flip"}, p \in pos}
     \cup {Call(o, <<p, v>>) : o \in {"setv", "ref_set"}, p \in pos, v \in 0..1}
     \cup {Call(o, <<p, q>>) : o \in {"ref_aa", "ref_ab"}, p \in pos, q \in pos}
     \cup {Call(o, <<>>) : o \in {"set_all", "reset_all", "flip_all", "not", "and", "or", "xor", "and3", "or3", "xor3", "and_self", "or_self", "xor_self",
                                  "ctor", "copy_ctor", "assign_ab", "assign_self", "num", "ask", "zero"}}
     \cup (IF N > 0 THEN {} ELSE {Call(o, <<p>>) : o \in {"set", "unset", "flip"}, p \in 0..1} \cup {Call("setv", <<0, v>>) : v \in 0..1})
     \cup {Call(o, <<k>>) : o \in {"shl", "shr", "shl3", "shr3"}, k \in 0..(N + 2) \cup Far}
     \cup {Call(o, <<v, 0, 0, w>>) : o \in {"from_ul", "from_ull"}, v \in 0..(Pow(N + 1) - 1), w \in {0, 32768}}
     \cup {Call("from_str", <<n>> \o s) : n \in {-100, -1} \cup 0..MaxS, s \in strs}
     \cup {Call("from_str2", <<-1>> \o s) : s \in strs}
     \cup {Call(o, <<m>>) : o \in {"conv", "conv_as", "conv_op"}, m \in Ms}
=============================================================================
