------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Accepts a recorded history of the real code iff every line is an        *)
(* outcome the specification allows in the state reached so far.           *)
(***************************************************************************)
EXTENDS Common, Json, IOUtils
CONSTANTS StepOp(_, _), Start, Ids, Log, AuxOk(_, _)
VARIABLES l, st

ValsIn(is) == [w \in 1..Len(is) |-> [k \in 1..Len(is[w]) |-> Tail(is[w][k])]]
FreshLine(e) == ValsIn(e.i) = ValsIn(Start.i) /\ e.x = Start.x
Init == l = 1 /\ st = Start
Next ==
  /\ l <= Len(Log)
  /\ LET e == Log[l]
         c == Call(e.op, e.args)
     IN IF e.op = "reset"
        THEN \* new instances: contents as specified, identities as recorded
             /\ IF FreshLine(e) THEN TRUE ELSE PrintT(<<"REJECT", l, e.op, e.args, Start, e>>) /\ FALSE
             /\ st' = [Start EXCEPT !.i = e.i]
        ELSE LET all == StepOp(c, st)
                 ok == {o \in all : Explains(o, e, st, Ids) /\ AuxOk(o, e)}
             IN IF ok = {} THEN PrintT(<<"REJECT", l, e.op, e.args, all, e>>) /\ FALSE
                ELSE \E o \in ok : st' = Adopt(o, e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STUCK", TLCGet("stats").diameter>>)
=============================================================================
