-------------------------------- MODULE F03R --------------------------------
(* A task inside `with repeat_timeout(Period)`: each iteration renews and awaits a future; after the block it awaits  *)
(* an other future, where the timeout must not reach it.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Period, MaxTime, MaxRounds
VARIABLES z, act
(* at: where the task is: "in" (awaiting inside), "after" (awaiting after the block), "done" *)
Start == [now |-> 0, near |-> FALSE, at |-> "in", timer |-> Period, renewed |-> -1, fut |-> "pending", flag |-> FALSE,
          expired |-> FALSE, log |-> <<"enter">>, out |-> "pending", ready |-> <<>>, rounds |-> 1]
Wait(y, where) == [y EXCEPT !.at = where, !.fut = "pending"]
(* leaving the block cancels the timer *)
Leave(y, why) == [Wait(y, "after") EXCEPT !.timer = -1, !.log = Append(@, why)]
StepTask(y) ==
  LET cancelled == y.flag \/ y.fut = "cancelled" IN
  IF y.at = "in"
  THEN IF cancelled THEN IF y.expired THEN Leave([y EXCEPT !.flag = FALSE], "timeout")
                         ELSE [y EXCEPT !.flag = FALSE, !.at = "done", !.out = "cancelled", !.timer = -1]
       ELSE CASE y.fut = "go on" -> [Wait(y, "in") EXCEPT !.renewed = y.now, !.rounds = @ + 1]
              [] y.fut = "leave" -> Leave(y, "left")
              [] y.fut = "error" -> Leave(y, "error")
  ELSE [y EXCEPT !.flag = FALSE, !.at = "done", !.out = IF cancelled THEN "cancelled" ELSE "result"]
CancelTask(y) == IF y.out # "pending" THEN y
                 ELSE IF y.fut = "pending" THEN [y EXCEPT !.fut = "cancelled", !.ready = Append(@, "task")]
                 ELSE [y EXCEPT !.flag = TRUE]
Timer(y) == IF y.timer # -2 THEN y     \* the handle was cancelled by leaving
            ELSE IF y.renewed # -1 THEN [y EXCEPT !.timer = y.renewed + Period, !.renewed = -1]
            ELSE CancelTask([y EXCEPT !.expired = TRUE, !.timer = -1])
Handle(y, h) == IF h = "timer" THEN Timer(y) ELSE StepTask(y)
RECURSIVE DrainOf(_)
DrainOf(y) == IF y.ready = <<>> THEN y ELSE DrainOf(Handle([y EXCEPT !.ready = Tail(@)], Head(y.ready)))
Due(y, k) == IF y.near THEN k < y.now ELSE k <= y.now
(* -2: the timer is in the ready queue *)
PumpOf(y) == IF y.timer >= 0 /\ Due(y, y.timer) THEN [y EXCEPT !.timer = -2, !.ready = Append(@, "timer")] ELSE y
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Init == z = [Start EXCEPT !.renewed = 0] /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Set(k) == /\ z.out = "pending" /\ z.fut = "pending"
          /\ (k = "go on" => z.rounds < MaxRounds) 
          /\ z' = [z EXCEPT !.fut = k, !.ready = Append(@, "task")] /\ Did("set", <<k>>, "-")
(* a cancellation arriving together with the expiry may end either way, it is left out *)
Cancel == /\ z.out = "pending" /\ z.timer # -2 /\ ~z.flag /\ ~(z.expired /\ z.at = "in") /\ z.fut # "cancelled"
          /\ z' = CancelTask(z) /\ Did("cancel", <<>>, "-")
Approach == ~z.near /\ z.now < MaxTime /\ z' = [z EXCEPT !.near = TRUE, !.now = @ + 1] /\ Did("approach", <<>>, "-")
Arrive == z.near /\ z' = [z EXCEPT !.near = FALSE] /\ Did("arrive", <<>>, "-")
(* a renewal is at a whole time *)
Pump == z' = PumpOf(z) /\ Did("pump", <<>>, "-")
Drain == (z.near => ~\E k \in 1..Len(z.ready) : z.ready[k] = "task") /\ z' = DrainOf(z) /\ Did("drain", <<>>, "-")
Next == (\E k \in {"go on", "leave", "error"} : Set(k)) \/ Cancel \/ Approach \/ Arrive \/ Pump \/ Drain
Spec == Init /\ [][Next]_<<z, act>>
St == z
Ob == [log |-> z.log, out |-> z.out, rounds |-> z.rounds]
View == z
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
OneEnd == Len(z.log) <= 2
TimeoutOnlyInside == (\E k \in 1..Len(z.log) : z.log[k] = "timeout") => z.expired
CancelledOnlyByRequest == [][z'.out = "cancelled" /\ z.out # "cancelled" => z.flag \/ z.fut = "cancelled" ]_<<z, act>>
NoTimerAfter == z.at # "in" => z.timer \in {-1}
=============================================================================
