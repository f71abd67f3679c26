-------------------------------- MODULE S05E --------------------------------
(* The size-limited async executor: its owner adds tasks and leaves the block.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Limit, Jobs  \* Jobs: how many tasks the owner may add
VARIABLES z, act
Js == 1..Jobs
(* owner: "in" (doing its own things), "adding" (waiting for room), "leaving", "left", or what it ended with;        *)
(* cmd: what the owner was told and did not do yet; failed: the first failure of a task nobody was told of            *)
Start == [owner |-> "in", cmd |-> "-", job |-> [j \in Js |-> "none"], failed |-> "-", dirty |-> FALSE]
Active(y) == {j \in Js : y.job[j] = "running"}
CancelAll(y) == [y EXCEPT !.job = [j \in Js |-> IF y.job[j] = "running" THEN "cancelled" ELSE y.job[j]]]
End(y, how) == [CancelAll(y) EXCEPT !.owner = how, !.cmd = "-", !.failed = "-"]
NextJob(y) == CHOOSE j \in Js : y.job[j] = "none" /\ \A k \in Js : y.job[k] = "none" => j <= k

Obey(y) ==
  CASE y.cmd = "add" -> LET a == [y EXCEPT !.job[NextJob(y)] = "running", !.cmd = "-"] IN
                        IF y.failed # "-" THEN End(a, y.failed)
                        ELSE [a EXCEPT !.owner = IF Cardinality(Active(a)) >= Limit THEN "adding" ELSE "in"]
    [] y.cmd = "leave" -> IF y.failed # "-" THEN End(y, y.failed)
                          ELSE IF Active(y) = {} THEN End(y, "left") ELSE [y EXCEPT !.owner = "leaving", !.cmd = "-"]
    [] y.cmd = "raise" -> End(y, IF y.failed # "-" THEN y.failed ELSE "body")
    [] OTHER -> y
Wake(y) ==
  CASE y.owner = "adding" -> IF y.failed # "-" THEN End(y, y.failed)
                             ELSE IF Cardinality(Active(y)) >= Limit THEN y ELSE [y EXCEPT !.owner = "in"]
    [] y.owner = "leaving" -> IF y.failed # "-" THEN End(y, y.failed)
                              ELSE IF Active(y) = {} THEN End(y, "left") ELSE y
    [] OTHER -> y
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Init == z = Start /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Tell(c) == /\ z.owner = "in" /\ z.cmd = "-" /\ (c = "add" => \E j \in Js : z.job[j] = "none")
           /\ ~z.dirty /\ z' = [z EXCEPT !.cmd = c, !.dirty = TRUE] /\ Did("tell", <<c>>, "-")
Settle(j, how) == /\ z.job[j] = "running" /\ z.cmd = "-"
                  /\ z' = [z EXCEPT !.job[j] = how, !.dirty = TRUE,
                                    !.failed = IF how = "failed" /\ @ = "-" THEN ToString(j) ELSE @]
                  /\ Did("settle", <<j, how>>, "-")
Drain == z' = [Wake(Obey(z)) EXCEPT !.dirty = FALSE] /\ Did("drain", <<>>, "-")
Next == (\E c \in {"add", "leave", "raise"} : Tell(c)) \/ (\E j \in Js, how \in {"ok", "failed", "cancelled"} : Settle(j, how)) \/ Drain
Spec == Init /\ [][Next]_<<z, act>>
St == z
Ob == IF z.dirty THEN [dirty |-> TRUE] ELSE [dirty |-> FALSE, owner |-> z.owner, job |-> z.job]
View == z
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
Limited == Cardinality(Active(z)) <= Limit
Room == ~z.dirty /\ z.owner = "in" => Cardinality(Active(z)) < Limit
AllDone == z.owner \notin {"in", "adding", "leaving"} => Active(z) = {}
FailureTold == z.owner = "left" => z.failed = "-" /\ \A j \in Js : z.job[j] # "failed"
=============================================================================
