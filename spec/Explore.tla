------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Exhaustive exploration of a component: every legal call in every        *)
(* reachable state within the bounds.  Emit writes each transition (for    *)
(* replay into the real code); View leaves out object identities, which    *)
(* would only multiply equivalent states.                                  *)
(***************************************************************************)
EXTENDS Common, Json
CONSTANTS CallsIn(_), StepOp(_, _), Start, Within(_)
VARIABLES st, last

Init == st = Start /\ last = <<>>
Next == \E c \in CallsIn(st) :
          \E o \in StepOp(c, st) :
            /\ Within(o.s)
            /\ st' = o.s
            /\ last' = [c |-> c, r |-> o.r]
Spec == Init /\ [][Next]_<<st, last>>
View == Strip(st)
Emit == PrintT(ToJson(<<"E", st, last'.c.op, last'.c.args, last'.r, st'>>))
=============================================================================
