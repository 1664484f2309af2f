------------------------------ MODULE Common ------------------------------
(***************************************************************************)
(* Vocabulary shared by all component specifications.                      *)
(*                                                                         *)
(* A container's contents are a sequence of TOKENS.  A token is            *)
(* <<id, v1, ..., vw>>: an object identity followed by its value(s); w = 1 *)
(* for sequences, w = 2 (key, mapped value) for dictionaries.  Identities  *)
(* make statements such as "the element moved, it was not copied" and      *)
(* "elements never move" expressible.                                      *)
(*                                                                         *)
(* A component state is a record whose field `i' is the tuple of its       *)
(* container instances (usually two, so that copy, swap, splice, merge and *)
(* comparison can be expressed) and whose field `x' is a tuple of further  *)
(* observable integers.                                                    *)
(*                                                                         *)
(* A call is [op |-> name, args |-> tuple of integers].  A component       *)
(* defines Step(call, st): the SET of allowed outcomes [r |-> reply tuple, *)
(* s |-> next state].                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Call(o, as) == [op |-> o, args |-> as]
Out(rep, ns) == [r |-> rep, s |-> ns]

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Bit(b) == IF b THEN 1 ELSE 0

\* Hidden state: part of a component's state that its observers do not show.
Hidden(st) == IF "h" \in DOMAIN st THEN st.h ELSE <<>>

FSE == INSTANCE FiniteSetsExt
SE == INSTANCE SequencesExt
MaxOf(S) == FSE!FoldSet(Max2, CHOOSE x \in S : TRUE, S)

IdOf(t) == t[1]
ValOf(t) == Tail(t)
V(t) == t[2]

Vals(q) == [k \in 1..Len(q) |-> q[k][2]]
IdSet(q) == {q[k][1] : k \in 1..Len(q)}
AllIds(st) == UNION {IdSet(st.i[n]) : n \in 1..Len(st.i)}

\* The first identity not in use; New(st, vs) are fresh objects with values vs.
TopId(q) == SE!FoldLeft(LAMBDA m, t : Max2(m, t[1]), 0, q)
Fresh(st) == SE!FoldLeft(LAMBDA m, q : Max2(m, TopId(q)), 0, st.i) + 1
New(st, vs) == LET f == Fresh(st) IN [k \in 1..Len(vs) |-> <<f + k - 1, vs[k]>>]

StripSeq(q) == [k \in 1..Len(q) |-> Tail(q[k])]
\* Comparing containers p and q: p = q, p # q, q = p, q # p, p = p, q # q.
Compare(p, q) == LET e == StripSeq(p) = StripSeq(q) IN <<Bit(e), Bit(~e), Bit(e), Bit(~e), 1, 0>>

Rep(n, v) == [k \in 1..n |-> v]

\* Zero-based positions, as in the C++ interface: elements f .. l-1.
Slice(q, f, l) == SubSeq(q, f + 1, l)
Before(q, p) == SubSeq(q, 1, p)
From(q, p) == SubSeq(q, p + 1, Len(q))
InsertAt(q, p, new) == Before(q, p) \o new \o From(q, p)
RemoveRange(q, f, l) == Before(q, f) \o From(q, l)
Reverse(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Filter(q, Keep(_)) == SelectSeq(q, Keep)

\* Without identities: what TLC uses to tell states apart.
Strip(st) == <<[n \in 1..Len(st.i) |-> StripSeq(st.i[n])], st.x, Hidden(st)>>

\* No object is in two places at once.
UniqueIds(st) ==
  /\ \A n \in 1..Len(st.i) : Cardinality(IdSet(st.i[n])) = Len(st.i[n])
  /\ \A n, m \in 1..Len(st.i) : n # m => IdSet(st.i[n]) \cap IdSet(st.i[m]) = {}

\* Does the observed state (from a run of the real code) agree with the
\* expected one?  Values must agree; an object that stays must be the same
\* object (ids, if recorded).
TokMatch(exp, obs, old, useids) ==
  /\ Len(exp) = Len(obs)
  /\ \A k \in 1..Len(exp) :
       /\ Tail(exp[k]) = Tail(obs[k])
       /\ (useids /\ exp[k][1] \in old) => obs[k][1] = exp[k][1]
InstMatch(exp, obs, old, useids) ==
  /\ Len(exp) = Len(obs)
  /\ \A n \in 1..Len(exp) : TokMatch(exp[n], obs[n], old, useids)

(***************************************************************************)
(* Judging one recorded line e = [op, args, r, i, x, aux, live] of a run   *)
(* of the real code: outcome o of the specification explains it when       *)
(* reply, contents, identities and the number of live element objects all  *)
(* agree.                                                                  *)
(***************************************************************************)
RECURSIVE SumLens(_)
SumLens(is) == IF is = <<>> THEN 0 ELSE Len(Head(is)) + SumLens(Tail(is))

Explains(o, e, st, useids) ==
  /\ o.r = e.r
  /\ InstMatch(o.s.i, e.i, AllIds(st), useids)
  /\ useids => UniqueIds(e)
  /\ o.s.x = e.x
  /\ e.live >= 0 => e.live = SumLens(e.i)
\* Nothing further is recorded in e.aux.
NoAux(o, e) == TRUE
\* The specification's view of the line: its hidden part, the observed objects.
Adopt(o, e) == [o.s EXCEPT !.i = e.i]
-----------------------------------------------------------------------------
\* The orders in use: ascending, descending, and by halves (0~1 < 2~3 < ...),
\* a strict weak order in which distinct values are equivalent.
LT == 0
GT == 1
HALF == 2
Less(m, x, y) == CASE m = LT -> x < y [] m = GT -> x > y [] m = HALF -> x \div 2 < y \div 2
Sorted(m, q) == \A k \in 1..(Len(q) - 1) : ~Less(m, V(q[k + 1]), V(q[k]))
\* Stable merge, equivalent elements of p first.
\* (The quantifier binds values, so that TLC computes each once.)
Merge(m, p0, q0) ==
  LET all == {SE!FoldLeft(LAMBDA a, n : \* a = <<merged, taken from p, taken from q>>
                IF a[2] < Len(p) /\ (a[3] = Len(q) \/ ~Less(m, V(q[a[3] + 1]), V(p[a[2] + 1])))
                THEN <<Append(a[1], p[a[2] + 1]), a[2] + 1, a[3]>>
                ELSE <<Append(a[1], q[a[3] + 1]), a[2], a[3] + 1>>,
              <<<<>>, 0, 0>>, [n \in 1..(Len(p) + Len(q)) |-> n])[1] : p \in {p0}, q \in {q0}}
  IN CHOOSE r \in all : TRUE

-----------------------------------------------------------------------------
(***************************************************************************)
(* A CURSOR is an iterator kept by the user: x = <<instance, position>>,   *)
(* <<0, 0>> when there is none (or its element is gone).  Position Len is  *)
(* the end.  A cursor at an element stays with the element, wherever it is *)
(* moved; a cursor at the end stays the end of its container, unless the   *)
(* container itself is destroyed (instances in `reborn').                  *)
(***************************************************************************)
Follow(s, ns, reborn) ==
  IF s.x = <<>> \/ s.x[1] = 0 THEN [ns EXCEPT !.x = s.x]
  ELSE LET w == s.x[1]
           p == s.x[2]
       IN IF p = Len(s.i[w])
          THEN [ns EXCEPT !.x = IF w \in reborn THEN <<0, 0>> ELSE <<w, Len(ns.i[w])>>]
          ELSE LET id == s.i[w][p + 1][1]
                   at == {<<m, k>> \in (1..Len(ns.i)) \X (1..MaxOf({Len(ns.i[m]) : m \in 1..Len(ns.i)} \cup {1})) :
                            k <= Len(ns.i[m]) /\ ns.i[m][k][1] = id}
               IN [ns EXCEPT !.x = IF at = {} THEN <<0, 0>>
                                   ELSE LET a == CHOOSE a \in at : TRUE IN <<a[1], a[2] - 1>>]
Valid(s) == s.x # <<>> /\ s.x[1] # 0
AtEnd(s) == s.x[2] = Len(s.i[s.x[1]])
=============================================================================
