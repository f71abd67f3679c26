-------------------------------- MODULE S02 --------------------------------
(* An event and the tasks waiting for it.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tasks
VARIABLES st,    \* "idle", "new" (its wait was not run yet), "dead" (cancelled before), "waiting", "woken" (was waiting when
                 \* the event was set, does not know yet), "resumed", "cancelled", "timed out"
          value, dirty, act
vars == <<st, value, dirty>>
St == [st |-> st, value |-> value, dirty |-> dirty]
Ob == IF dirty THEN [dirty |-> TRUE, value |-> value] ELSE [dirty |-> FALSE, value |-> value, st |-> st]
Init == st = [t \in Tasks |-> "idle"] /\ value = FALSE /\ dirty = FALSE /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Resting(t) == st[t] \in {"idle", "resumed", "cancelled", "timed out"}
Wait(t) == Resting(t) /\ st' = [st EXCEPT ![t] = "new"] /\ dirty' = TRUE /\ UNCHANGED value /\ Did("wait", <<t>>, "-")
Set == /\ value' = TRUE /\ dirty' = TRUE
       /\ st' = IF value THEN st ELSE [t \in Tasks |-> IF st[t] = "waiting" THEN "woken" ELSE st[t]]
       /\ Did("set", <<>>, "-")
Clear == value' = FALSE /\ UNCHANGED <<st, dirty>> /\ Did("clear", <<>>, "-")
Cancel(t) == /\ st[t] \in {"new", "waiting", "woken"}
             /\ st' = [st EXCEPT ![t] = IF @ = "new" THEN "dead" ELSE "cancelled"] /\ dirty' = TRUE
             /\ UNCHANGED value /\ Did("cancel", <<t>>, "-")
TimeOut(t) == /\ st[t] \in {"waiting", "woken"} /\ st' = [st EXCEPT ![t] = "timed out"] /\ dirty' = TRUE
              /\ UNCHANGED value /\ Did("time_out", <<t>>, "-")
Drain == /\ st' = [t \in Tasks |-> CASE st[t] = "new" -> IF value THEN "resumed" ELSE "waiting"
                                     [] st[t] = "woken" -> "resumed"
                                     [] st[t] = "dead" -> "cancelled"
                                     [] OTHER -> st[t]]
         /\ dirty' = FALSE /\ UNCHANGED value /\ Did("drain", <<>>, "-")
Next == (\E t \in Tasks : Wait(t) \/ Cancel(t) \/ TimeOut(t)) \/ Set \/ Clear \/ Drain
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
SetWakesAll == [][act'.op = "set" => \A t \in Tasks : st'[t] # "waiting" \/ value]_<<vars, act>>
NoneWaitsOnSet == ~dirty /\ value => \A t \in Tasks : st[t] # "waiting"
OnlyWhenSet == [][\A t \in Tasks : st[t] = "waiting" /\ st'[t] \in {"woken", "resumed"} => act'.op = "set"]_<<vars, act>>
OthersUndisturbed == [][act'.op \in {"cancel", "time_out"} => \A t \in Tasks : t # act'.a[1] => st'[t] = st[t]]_<<vars, act>>
=============================================================================
