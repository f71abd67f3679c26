-------------------------------- MODULE F03 --------------------------------
(* Timeouts applied to a future or to a task awaiting it, and sleeping tasks. The clock stands either at a whole time *)
(* unit or just before one. The loop is a timer list and a ready queue.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,     \* "future": timeouts on f;  "task", "guarded": on a task awaiting f (guarded: it handles errors);
                    \* "sleep": a task sleeping
          MaxTime, Delays, MaxApplied, Negatives
VARIABLES z, act
Pend == <<"pending">>
Times == 0..MaxTime + 5
IsTask == Mode \in {"task", "guarded"}

(* f: the future; m: the task awaiting it ("wait", flag: a remembered cancellation, why: its exception);
   n: sleeping task, s: its sleep future *)
Start == [now |-> 0, near |-> FALSE, timers |-> [k \in Times |-> 0], sleeps |-> "-", ready |-> <<>>,
          f |-> Pend, m |-> Pend, flag |-> FALSE, why |-> "-", s |-> Pend, n |-> IF Mode = "sleep" THEN <<"none">> ELSE Pend,
          nflag |-> FALSE, applied |-> 0, slept |-> "-"]

SettleF(y, o) == IF y.f # Pend THEN y ELSE [y EXCEPT !.f = o, !.ready = IF IsTask /\ y.m = Pend THEN Append(@, "m") ELSE @]
CancelTarget(y, e) ==
  IF Mode = "future" THEN SettleF(y, <<"cancelled with", e>>)
  ELSE IF y.m # Pend THEN y
  ELSE [SettleF(y, <<"cancelled">>) EXCEPT !.flag = TRUE, !.why = e]
TargetDone(y) == IF Mode = "future" THEN y.f # Pend ELSE y.m # Pend

StepM(y) == LET o == y.f IN
  IF y.flag THEN [y EXCEPT !.flag = FALSE,
                           !.m = IF Mode = "guarded" THEN <<"result", "handled">> ELSE <<"cancelled with", y.why>>]
  ELSE [y EXCEPT !.m = CASE o[1] = "result" -> o
                         [] Mode = "guarded" -> <<"result", "handled">>
                         [] o[1] = "error" -> o
                         [] o[1] = "cancelled" -> <<"cancelled">>
                         [] o[1] = "cancelled with" -> <<"error", o[2]>>]
Handle(y, h) ==
  CASE h = "timeout" -> CancelTarget(y, "timeout")
    [] h = "m" -> StepM(y)
    [] h = "sleep" -> IF y.s = Pend THEN [y EXCEPT !.s = <<"result", "none">>, !.ready = Append(@, "n")] ELSE y
    [] h = "n" -> [y EXCEPT !.nflag = FALSE,
                            !.n = IF y.nflag \/ y.s[1] = "cancelled" THEN <<"cancelled">> ELSE <<"result", "awake">>]
RECURSIVE DrainOf(_)
DrainOf(y) == IF y.ready = <<>> THEN y ELSE DrainOf(Handle([y EXCEPT !.ready = Tail(@)], Head(y.ready)))

Due(y, k) == IF y.near THEN k < y.now ELSE k <= y.now
RECURSIVE Copies(_, _)
Copies(c, n) == IF n = 0 THEN <<>> ELSE <<c>> \o Copies(c, n - 1)
RECURSIVE PumpOf(_, _)
PumpOf(y, k) == IF k > MaxTime + 5 \/ ~Due(y, k) THEN y
                ELSE LET y1 == [y EXCEPT !.ready = @ \o Copies("timeout", y.timers[k]), !.timers[k] = 0]
                         y2 == IF y1.sleeps = ToString(k) THEN [y1 EXCEPT !.ready = Append(@, "sleep"), !.sleeps = "-"] ELSE y1
                     IN PumpOf(y2, k + 1)

Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Init == z = Start /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]

Apply(d) ==
  /\ Mode # "sleep" /\ z.applied < MaxApplied /\ ~z.near
  /\ LET done == TargetDone(z) IN
     /\ z' = [(IF done THEN z ELSE [z EXCEPT !.timers[z.now + d] = @ + 1]) EXCEPT !.applied = @ + 1]
     /\ Did("apply", <<d>>, IF done THEN "0" ELSE "1")
ApplyNow(d) ==
  /\ Mode # "sleep" /\ z.applied < MaxApplied
  /\ z' = [CancelTarget(z, "timeout") EXCEPT !.applied = @ + 1]
  /\ Did("apply_now", <<d>>, IF TargetDone(z) THEN "0" ELSE "1")
SetF == Mode # "sleep" /\ z.f = Pend /\
        \/ z' = SettleF(z, <<"result", "v">>) /\ Did("set_result", <<>>, "-")
        \/ z' = SettleF(z, <<"error", "e1">>) /\ Did("set_exception", <<>>, "-")
        \/ z' = SettleF(z, <<"cancelled">>) /\ Did("cancel", <<>>, "-")
Sleep(d) == /\ Mode = "sleep" /\ z.n = <<"none">> /\ ~z.near
            /\ IF d = 0 THEN z' = [z EXCEPT !.n = <<"result", "awake">>]
                        ELSE z' = [z EXCEPT !.n = Pend, !.sleeps = ToString(z.now + d)]
            /\ Did("sleep", <<d>>, "-")
CancelSleep == /\ Mode = "sleep" /\ z.n = Pend /\ ~z.nflag
               /\ IF z.s = Pend THEN z' = [z EXCEPT !.s = <<"cancelled">>, !.ready = Append(@, "n")]
                                ELSE z' = [z EXCEPT !.nflag = TRUE]
               /\ Did("cancel_sleep", <<>>, "-")
(* the clock *)
Approach == ~z.near /\ z.now < MaxTime /\ z' = [z EXCEPT !.near = TRUE, !.now = @ + 1] /\ Did("approach", <<>>, "-")
Arrive == z.near /\ z' = [z EXCEPT !.near = FALSE] /\ Did("arrive", <<>>, "-")
(* the loop: due timers become ready at the beginning of a cycle, then everything ready is run *)
Pump == z' = PumpOf(z, 0) /\ Did("pump", <<>>, "-")
Drain == z' = DrainOf(z) /\ Did("drain", <<>>, "-")

Next == (\E d \in Delays : Apply(d) \/ Sleep(d)) \/ (\E d \in Negatives : ApplyNow(d)) \/ (Mode = "sleep" /\ Sleep(0))
        \/ SetF \/ CancelSleep \/ Approach \/ Arrive \/ Pump \/ Drain
Spec == Init /\ [][Next]_<<z, act>>
St == z
Ob == [f |-> z.f, m |-> z.m, n |-> z.n]
View == z
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
Settled == [][/\ z.f # Pend => z'.f = z.f
              /\ z.m # Pend => z'.m = z.m
              /\ z.n \notin {Pend, <<"none">>} => z'.n = z.n]_<<z, act>>
(* once a cycle moved the due timers and ran everything, whatever had an applied timeout by now is settled *)
Overdue == \E k \in Times : z.timers[k] > 0 /\ Due(z, k)
InTime == [][(act.op = "pump" /\ act'.op = "drain" /\ "timeout" \in {z.ready[k] : k \in 1..Len(z.ready)}) =>
             TargetDone(z')]_<<z, act>>
NeverEarly == [][(z.ready = <<>> /\ act'.op = "drain") => z' = z]_<<z, act>>
=============================================================================
