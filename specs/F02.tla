-------------------------------- MODULE F02 --------------------------------
(* Tasks stepping coroutines. Two tasks, "m" and "i"; m may await i. Coroutines are small programs, see Exec.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Programs,   \* set of [m |-> program, i |-> program]
          MaxCancels
VARIABLES s, act
vars == s
Tasks == {"m", "i"}
Futures == {"f", "g"}
Pend == <<"pending">>
Idle == [prog |-> [m |-> <<>>, i |-> <<>>], fut |-> [x \in Futures |-> Pend], pc |-> [t \in Tasks |-> 0],
         wait |-> [t \in Tasks |-> "-"], flag |-> [t \in Tasks |-> FALSE], why |-> [t \in Tasks |-> "-"],
         out |-> [t \in Tasks |-> Pend], ready |-> <<>>, log |-> [t \in Tasks |-> <<>>], cancels |-> 0, live |-> FALSE,
         caught |-> [t \in Tasks |-> FALSE]]

Outcome(z, x) == IF x \in Tasks THEN z.out[x] ELSE z.fut[x]
(* what awaiting a settled future gives *)
Delivered(o) == CASE o[1] = "result" -> o
                  [] o[1] = "error" -> o
                  [] o[1] = "cancelled" -> <<"error", "cancelled">>
                  [] o[1] = "cancelled with" -> <<"error", o[2]>>

(* Settling passes the waiting tasks to the loop (each future is awaited by at most one task here). *)
Waiters(z, x) == SelectSeq(<<"i", "m">>, LAMBDA t : z.wait[t] = x)
Settle(z, x, o) == LET y == IF x \in Tasks THEN [z EXCEPT !.out[x] = o] ELSE [z EXCEPT !.fut[x] = o]
                   IN [y EXCEPT !.ready = @ \o Waiters(z, x)]

(* Cancelling a task cancels what it awaits; if there is nothing to cancel the task remembers it for its next step. *)
RECURSIVE CancelOf(_, _)
CancelOf(z, x) ==
  IF Outcome(z, x) # Pend THEN [z |-> z, r |-> 0]
  ELSE IF x \in Futures THEN [z |-> Settle(z, x, <<"cancelled">>), r |-> 1]
  ELSE IF z.wait[x] # "-" /\ CancelOf(z, z.wait[x]).r = 1 THEN [z |-> CancelOf(z, z.wait[x]).z, r |-> 1]
  ELSE [z |-> [z EXCEPT !.flag[x] = TRUE], r |-> 1]

CancelWithOf(z, t, e) ==
  IF z.out[t] # Pend THEN [z |-> z, r |-> 0]
  ELSE LET y == IF z.wait[t] # "-" THEN CancelOf(z, z.wait[t]).z ELSE z
       IN [z |-> [y EXCEPT !.flag[t] = TRUE, !.why[t] = e], r |-> 1]

Finish(z, t, o) ==
  LET cancelled == o = <<"error", "cancelled">> \/ (o[1] = "result" /\ z.flag[t])
      final == IF cancelled THEN IF z.why[t] = "-" THEN <<"cancelled">> ELSE <<"cancelled with", z.why[t]>> ELSE o
  IN Settle([z EXCEPT !.flag[t] = FALSE], t, final)

Log(z, t, d) == [z EXCEPT !.log[t] = Append(@, d), !.pc[t] = @ + 1, !.caught[t] = @ \/ d = <<"error", "cancelled">>]

(* A program is a sequence of instructions:                                                                          *)
(*  await x: leaves with the error of x;  guard x: goes on with whatever x gave;  convert x: turns an error into "e2" *)
(*  wait x: waits for x without its outcome;  yield: gives the loop a turn;  cancel: cancels its own task              *)
(*  return v;  raise e;  the end of the program returns "end"                                                        *)
RECURSIVE Exec(_, _), Resume(_, _, _)
Exec(z, t) ==
  IF z.pc[t] > Len(z.prog[t]) THEN Finish(z, t, <<"result", "end">>)
  ELSE LET ins == z.prog[t][z.pc[t]] IN
    CASE ins[1] \in {"await", "guard", "convert", "wait"} ->
           IF Outcome(z, ins[2]) = Pend
           THEN LET y == [z EXCEPT !.wait[t] = ins[2]] IN
                IF y.flag[t] /\ CancelOf(y, ins[2]).r = 1 THEN [CancelOf(y, ins[2]).z EXCEPT !.flag[t] = FALSE] ELSE y
           ELSE Resume(z, t, Delivered(Outcome(z, ins[2])))
      [] ins[1] = "yield" -> [z EXCEPT !.ready = Append(@, t)]
      [] ins[1] = "cancel" -> Exec([z EXCEPT !.flag[t] = TRUE, !.pc[t] = @ + 1], t)
      [] ins[1] = "return" -> Finish(z, t, <<"result", ins[2]>>)
      [] ins[1] = "raise" -> Finish(z, t, <<"error", ins[2]>>)
Resume(z, t, d) ==
  LET ins == z.prog[t][z.pc[t]] IN
    CASE ins[1] = "await" -> IF d[1] = "error" THEN Finish(z, t, d) ELSE Exec(Log(z, t, d), t)
      [] ins[1] = "guard" -> Exec(Log(z, t, d), t)
      [] ins[1] = "convert" -> IF d[1] = "error" THEN Finish(z, t, <<"error", "e2">>) ELSE Exec(Log(z, t, d), t)
      [] ins[1] = "wait" -> Exec(Log(z, t, <<"completed">>), t)
      [] ins[1] = "yield" -> Exec(Log(z, t, <<"go">>), t)

(* one step of a task: throws a remembered cancellation, or resumes with the outcome of the awaited future *)
StepTask(z, t) ==
  LET x == z.wait[t]
      y == [z EXCEPT !.wait[t] = "-", !.flag[t] = FALSE]
  IN IF z.pc[t] = 0
     THEN IF z.flag[t] THEN Finish(y, t, <<"error", "cancelled">>) ELSE Exec([y EXCEPT !.pc[t] = 1], t)
     ELSE LET ins == z.prog[t][z.pc[t]] IN
       IF z.flag[t] THEN IF ins[1] = "guard" THEN Exec(Log(y, t, <<"error", "cancelled">>), t)
                         ELSE IF ins[1] = "convert" THEN Finish(y, t, <<"error", "e2">>)
                         ELSE Finish(y, t, <<"error", "cancelled">>)
       ELSE Resume(y, t, IF ins[1] = "yield" THEN <<"go">> ELSE Delivered(Outcome(z, x)))
RunHead(z) == StepTask([z EXCEPT !.ready = Tail(@)], Head(z.ready))
RECURSIVE RunAllOf(_)
RunAllOf(z) == IF z.ready = <<>> THEN z ELSE RunAllOf(RunHead(z))

Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Init == s = Idle /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Start == ~s.live /\ \E p \in Programs :
           s' = [s EXCEPT !.prog = p, !.live = TRUE, !.ready = <<"i", "m">>] /\ Did("start", <<p>>, "-")
Set(x) == s.live /\ s.fut[x] = Pend /\
          \/ s' = Settle(s, x, <<"result", "v">>) /\ Did("set_result", <<x>>, "-")
          \/ s' = Settle(s, x, <<"error", "e1">>) /\ Did("set_exception", <<x>>, "-")
          \/ s' = Settle(s, x, <<"cancelled">>) /\ Did("cancel_future", <<x>>, "-")
(* which exception a task that swallowed one cancellation ends with after an other one is left open *)
Clear(t) == ~(s.caught[t] /\ s.why[t] # "-")
Cancel(t) == /\ s.live /\ s.cancels < MaxCancels /\ Clear(t)
             /\ LET c == CancelOf(s, t) IN s' = [c.z EXCEPT !.cancels = @ + 1] /\ Did("cancel", <<t>>, ToString(c.r))
CancelWith(t) == /\ s.live /\ s.cancels < MaxCancels /\ ~s.caught[t]
                 /\ LET c == CancelWithOf(s, t, "e1") IN
                    s' = [c.z EXCEPT !.cancels = @ + 1] /\ Did("cancel_with", <<t, "e1">>, ToString(c.r))
RunOne == s.ready # <<>> /\ s' = RunHead(s) /\ Did("run_one", <<>>, "-")
RunAll == s.ready # <<>> /\ s' = RunAllOf(s) /\ Did("run_all", <<>>, "-")
Next == Start \/ (\E x \in Futures : Set(x)) \/ (\E t \in Tasks : Cancel(t) \/ CancelWith(t)) \/ RunOne \/ RunAll
Spec == Init /\ [][Next]_<<s, act>>

St == s
Ob == [fut |-> s.fut, out |-> s.out, log |-> s.log, current |-> "-"]
View == s
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
Settled == [][\A t \in Tasks : s.out[t] # Pend => s'.out[t] = s.out[t]]_<<s, act>>
DoneIsIdle == \A t \in Tasks : s.out[t] # Pend => s.wait[t] = "-" /\ ~\E k \in 1..Len(s.ready) : s.ready[k] = t
(* an unfinished task with nothing to run waits for something that is still pending: no resumption and no
   cancellation is lost *)
NeverStranded == s.live => \A t \in Tasks : s.out[t] = Pend =>
   \/ \E k \in 1..Len(s.ready) : s.ready[k] = t
   \/ s.wait[t] # "-" /\ Outcome(s, s.wait[t]) = Pend /\ (s.flag[t] => s.wait[t] \in Tasks)
OnlyOnce == \A t \in Tasks : Cardinality({k \in 1..Len(s.ready) : s.ready[k] = t}) <= 1
=============================================================================
