------------------------------ MODULE HeadsMC ------------------------------
EXTENDS Heads
\* Writes every program reached: how it is compiled, the headers of its first
\* unit (those of the second are the same, reversed), what it can use.
Shown == PrintT(ToJson(<<"H", mode, a, SetToSeq(Usable(a))>>))
=============================================================================
