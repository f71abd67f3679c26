-------------------------------- MODULE L01 --------------------------------
(* The cycle of the event loop: callbacks scheduled to run soon or at a time, cancelled, held weakly, raising, and   *)
(* scheduling or cancelling others while they run.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Kinds, Hows, Delays, MaxDue
VARIABLES z, act
None == "-"
(* slots are callbacks; each knows an other one, which it may schedule, cancel or drop *)
Other(h) == CASE h = "a" -> "b" [] h = "b" -> "c" [] h = "c" -> "a" [] OTHER -> h
Start == [st |-> [h \in Slots |-> "idle"], kind |-> [h \in Slots |-> "plain"], due |-> [h \in Slots |-> 0],
          weak |-> [h \in Slots |-> FALSE], ready |-> <<>>, late |-> FALSE, log |-> <<>>]
Without(q, t) == SelectSeq(q, LAMBDA x : x # t)
Idle(y, h) == [y EXCEPT !.st[h] = "idle", !.kind[h] = "plain", !.due[h] = 0, !.weak[h] = FALSE, !.ready = Without(@, h)]
PutSoon(y, h, k) == [y EXCEPT !.st[h] = "ready", !.kind[h] = k, !.ready = Append(@, h)]
PutTimed(y, h, k, d, w) == [y EXCEPT !.st[h] = "timed", !.kind[h] = k, !.due[h] = d, !.weak[h] = w]
Weak(how) == how \in {"after weak", "at weak"}

(* running a callback *)
Do(y, h) ==
  LET k == y.kind[h]
      o == Other(h)
      r == [Idle(y, h) EXCEPT !.log = Append(@, h)]
      free == o \in Slots /\ r.st[o] = "idle"
  IN CASE k = "soon" /\ free -> PutSoon(r, o, "plain")
       [] k = "zero" /\ free -> PutTimed(r, o, "plain", 0, FALSE)
       [] k = "later" /\ free /\ ~y.late -> PutTimed(r, o, "plain", 1, FALSE)
       [] k = "cancel" /\ o \in Slots -> Idle(r, o)
       [] k = "drop" /\ o \in Slots -> IF r.weak[o] THEN Idle(r, o) ELSE r
       [] OTHER -> r
RECURSIVE RunReady(_)
RunReady(y) == IF y.ready = <<>> THEN y ELSE RunReady(Do(y, Head(y.ready)))
(* timers which are due become ready in order of their times *)
Due(y) == {h \in Slots : y.st[h] = "timed" /\ y.due[h] <= 0}
RECURSIVE Ripe(_)
Ripe(y) == IF Due(y) = {} THEN {y}
           ELSE LET first == {h \in Due(y) : \A o \in Due(y) : y.due[h] <= y.due[o]}
                IN UNION {Ripe([y EXCEPT !.st[h] = "ready", !.due[h] = 0, !.ready = Append(@, h)]) : h \in first}
RECURSIVE Cycles(_)
Cycles(y) == IF y.ready = <<>> /\ Due(y) = {} THEN {y} ELSE UNION {Cycles(RunReady(r)) : r \in Ripe(y)}
Min(S) == CHOOSE m \in S : \A s \in S : m <= s
Sleep(y) == LET T == {h \in Slots : y.st[h] = "timed"} IN IF T = {} THEN "forever" ELSE Min({y.due[h] : h \in T})

Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Init == z = Start /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Soon(h, k) == z.st[h] = "idle" /\ z' = PutSoon(z, h, k) /\ Did("soon", <<h, k>>, "-")
Timed(h, k, how, d) == /\ z.st[h] = "idle" /\ ~z.late /\ z' = PutTimed(z, h, k, d, Weak(how)) /\ Did("timed", <<h, k, how, d>>, "-")
Cancel(h) == z.st[h] # "idle" /\ z' = Idle(z, h) /\ Did("cancel", <<h>>, "-")
Drop(h) == z.weak[h] /\ z' = Idle(z, h) /\ Did("drop", <<h>>, "-")
Approach == ~z.late /\ z' = [z EXCEPT !.late = TRUE] /\ Did("approach", <<>>, "-")
Arrive == /\ z.late /\ \A h \in Slots : z.due[h] > -MaxDue
          /\ z' = [z EXCEPT !.late = FALSE, !.due = [h \in Slots |-> IF z.st[h] = "timed" THEN z.due[h] - 1 ELSE 0]]
          /\ Did("arrive", <<>>, "-")
(* the loop runs till it would wait; for how long it would *)
Settle == \E y \in Cycles(z) : z' = [y EXCEPT !.log = <<>>] /\ Did("settle", <<>>, [log |-> y.log, sleep |-> Sleep(y)])
Next == \/ \E h \in Slots : Cancel(h) \/ Drop(h) \/ \E k \in Kinds : Soon(h, k) \/ \E how \in Hows, d \in Delays : Timed(h, k, how, d)
        \/ Approach \/ Arrive \/ Settle
Spec == Init /\ [][Next]_<<z, act>>
St == z
View == z
Ob == "-"
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
Position(log, h) == CHOOSE i \in 1..Len(log) : log[i] = h
Settled == act'.op = "settle"
NothingDueIsLeft == [][Settled => z'.ready = <<>> /\ Due(z') = {}]_<<z, act>>
NeverEarly == [][Settled => \A i \in 1..Len(act'.r.log) : LET h == act'.r.log[i] IN z.st[h] = "timed" => z.due[h] <= 0 \/ z'.st[h] # "timed"]_<<z, act>>
InOrder == [][Settled => \A i, j \in 1..Len(z.ready) :
                 LET log == act'.r.log IN
                 (i < j /\ (\E k \in 1..Len(log) : log[k] = z.ready[i]) /\ (\E k \in 1..Len(log) : log[k] = z.ready[j]))
                   => Position(log, z.ready[i]) < Position(log, z.ready[j])]_<<z, act>>
Cancelled == [][act'.op \in {"cancel", "drop"} => z'.st[act'.a[1]] = "idle"]_<<z, act>>
=============================================================================
