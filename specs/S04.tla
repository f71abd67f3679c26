-------------------------------- MODULE S04 --------------------------------
(* A task group: its futures, the waiters created on it and a consumer exhausting it.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fs, Ws, Kinds, Hows, Consumer, Dups
VARIABLES z, act
None == "-"
Start == [made |-> FALSE,
          fut |-> [f \in Fs |-> "pending"],      \* the outcomes of the futures
          pending |-> {}, done |-> {},           \* the group
          wait |-> [w \in Ws |-> <<None>>],      \* <<kind, count>> while waiting, <<"=", result>> afterwards
          ready |-> <<>>,                        \* callbacks of futures and of cancelled waiters, the consumer
          eats |-> "idle", eaten |-> {}, dirty |-> FALSE]
Wake(y, x) == [y EXCEPT !.ready = Append(@, x)]
Fails(kind, o) == IF kind \in {"exception", "exception pop"} THEN o = "error"
                  ELSE o \in {"error", "cancelled"}
Failing == {"exception", "exception pop", "failure", "failure pop"}
Popping == {"first pop", "exception pop", "failure pop"}
Waiting(y, w) == y.wait[w][1] \in Kinds

(* what a waiter does with a future of the group which just got done *)
Hear(y, w, f) ==
  LET k == y.wait[w][1] c == y.wait[w][2] IN
  CASE k = "next" -> <<"=", "none">>
    [] k \in {"first", "first pop"} -> <<"=", f>>
    [] k \in Failing -> IF Fails(k, y.fut[f]) THEN <<"=", f>>
                        ELSE IF y.pending = {} THEN <<"=", "none">> ELSE y.wait[w]
    [] k \in {"two", "three"} -> IF c + 1 >= (IF k = "two" THEN 2 ELSE 3) THEN <<"=", c + 1>> ELSE <<k, c + 1>>
    [] k = "all" -> IF y.pending = {} THEN <<"=", "none">> ELSE y.wait[w]
(* a future of the group is done *)
Finish(y, f) ==
  LET p == [y EXCEPT !.pending = @ \ {f}]
      popped == \E w \in Ws : Waiting(y, w) /\ y.wait[w][1] \in Popping /\ Hear(p, w, f) = <<"=", f>>
      q == [p EXCEPT !.wait = [w \in Ws |-> IF Waiting(y, w) THEN Hear(p, w, f) ELSE y.wait[w]],
                     !.done = IF popped THEN @ ELSE @ \cup {f}]
  IN IF y.eats = "waiting" THEN Wake([q EXCEPT !.eats = "woken"], "consumer") ELSE q
(* the consumer takes everything done, then waits *)
Eat(y) == LET q == [y EXCEPT !.eaten = @ \cup y.done, !.done = {}]
          IN IF q.pending = {} THEN [q EXCEPT !.eats = "idle"] ELSE [q EXCEPT !.eats = "waiting"]
Run(y, x) == IF x = "consumer" THEN CASE y.eats \in {"new", "woken"} -> Eat(y)
                                      [] y.eats = "dead" -> [y EXCEPT !.eats = "idle"]
             ELSE Finish(y, x)
RECURSIVE DrainOf(_)
DrainOf(y) == IF y.ready = <<>> THEN y ELSE DrainOf(Run([y EXCEPT !.ready = Tail(@)], Head(y.ready)))

Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Dirty(y) == [y EXCEPT !.dirty = TRUE]
Init == z = Start /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Flags(F) == [f \in Fs |-> f \in F]
InGroup(y) == y.pending \cup y.done
SettleTo(y, f, how) == LET q == [y EXCEPT !.fut[f] = how] IN IF f \in y.pending THEN Wake(q, f) ELSE q
Settle(f, how) == /\ z.fut[f] = "pending" /\ z' = Dirty(SettleTo(z, f, how)) /\ Did("settle", <<f, how>>, "-")
Names == [f \in Fs |-> f]
Make(F) == /\ ~z.made
           /\ z' = Dirty([z EXCEPT !.made = TRUE, !.done = {f \in F : z.fut[f] # "pending"},
                              !.pending = {f \in F : z.fut[f] = "pending"}])
           /\ Did("make", <<Flags(F)>>, "-")
Add(f) == /\ z.made /\ (f \notin InGroup(z) \/ Dups)
          /\ z' = Dirty(IF f \in InGroup(z) THEN z
                  ELSE IF z.fut[f] = "pending" THEN [z EXCEPT !.pending = @ \cup {f}]
                  ELSE Finish(z, f))
          /\ Did("add", <<f>>, "-")
(* a new waiter; its result if it has one already *)
Wait(w, k) ==
  /\ z.made /\ ~Waiting(z, w)
  /\ LET failed == {f \in z.done : Fails(k, z.fut[f])}
         Keep(c) == z' = Dirty([z EXCEPT !.wait[w] = <<k, c>>]) /\ Did("wait", <<w, k>>, "pending")
         Get(f) == z' = Dirty([z EXCEPT !.wait[w] = <<"=", f>>, !.done = IF k \in Popping THEN @ \ {f} ELSE @])
                   /\ Did("wait", <<w, k>>, f)
     IN CASE k = "next" -> Keep(0)
          [] k \in {"first", "first pop"} -> IF z.done # {} THEN \E f \in z.done : Get(f)
                                             ELSE IF z.pending # {} THEN Keep(0) ELSE Get("none")
          [] k \in Failing -> IF failed # {} THEN \E f \in failed : Get(f)
                              ELSE IF z.pending # {} THEN Keep(0) ELSE Get("none")
          [] k \in {"two", "three"} -> LET c == Cardinality(z.done) IN
                                       IF c >= (IF k = "two" THEN 2 ELSE 3) THEN Get(c) ELSE Keep(c)
          [] k = "all" -> IF z.pending = {} THEN Get("none") ELSE Keep(0)
CancelWaiter(w) == /\ Waiting(z, w) /\ z' = Dirty([z EXCEPT !.wait[w] = <<"=", "cancelled">>]) /\ Did("cancel_waiter", <<w>>, "-")
PopDone == /\ z.made
           /\ IF z.done = {} THEN UNCHANGED z /\ Did("pop_done", <<>>, "none")
              ELSE \E f \in z.done : z' = [z EXCEPT !.done = @ \ {f}] /\ Did("pop_done", <<>>, f)
ExhaustDone == z.made /\ z' = [z EXCEPT !.done = {}] /\ Did("exhaust_done", <<>>, Flags(z.done))
(* the futures of the group are cancelled in any order *)
RECURSIVE CancelEach(_, _)
CancelEach(y, F) == IF F = {} THEN {y} ELSE UNION {CancelEach(SettleTo(y, f, "cancelled"), F \ {f}) : f \in F}
CancelSome(how) == LET F == IF how \in {"done", "leave without exception"} THEN {} ELSE {f \in z.pending : z.fut[f] = "pending"}
                   IN /\ z.made /\ z.pending \cup z.done # {}
                      /\ \E y \in CancelEach(z, F) : z' = Dirty(y)
                      /\ Did("cancel", <<how>>, "-")
Consume == /\ Consumer /\ z.made /\ z.eats = "idle" /\ z' = Dirty(Wake([z EXCEPT !.eats = "new"], "consumer")) /\ Did("consume", <<>>, "-")
CancelConsumer == /\ z.eats \in {"new", "waiting", "woken"}
                  /\ z' = Dirty(IF z.eats = "waiting" THEN Wake([z EXCEPT !.eats = "dead"], "consumer") ELSE [z EXCEPT !.eats = "dead"])
                  /\ Did("cancel_consumer", <<>>, "-")
Drain == LET y == DrainOf(z) IN /\ z.dirty /\ z' = [y EXCEPT !.dirty = FALSE, !.eaten = {}] /\ Did("drain", <<>>, Flags(y.eaten))
Next == \/ \E f \in Fs : Add(f) \/ \E how \in Hows : Settle(f, how)
        \/ \E w \in Ws : CancelWaiter(w) \/ \E k \in Kinds : Wait(w, k)
        \/ \E F \in SUBSET Fs : Make(F)
        \/ PopDone \/ ExhaustDone \/ Consume \/ CancelConsumer \/ Drain
        \/ \E how \in {"all", "pending", "done", "leave", "leave without exception"} : CancelSome(how)
Spec == Init /\ [][Next]_<<z, act>>
St == z
View == z
Ob == IF z.dirty \/ ~z.made THEN [dirty |-> z.dirty]
      ELSE [dirty |-> FALSE, pending |-> Flags(z.pending), done |-> Flags(z.done), fut |-> z.fut, eats |-> z.eats # "idle",
            wait |-> [w \in Ws |-> IF Waiting(z, w) THEN "pending" ELSE IF z.wait[w][1] = None THEN None ELSE z.wait[w][2]]]
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
Apart == z.pending \cap z.done = {}
DoneAreDone == \A f \in z.done : z.fut[f] # "pending"
(* when the loop is idle the group knows what is pending *)
Knows == ~z.dirty => \A f \in z.pending : z.fut[f] = "pending"
(* and no waiter waits for what holds already or can not hold any more *)
NoneWaitsInVain == ~z.dirty => \A w \in Ws : Waiting(z, w) =>
   LET k == z.wait[w][1] IN
   /\ k \in Failing \cup {"all", "first", "first pop"} => z.pending # {}
   /\ k = "two" => z.wait[w][2] < 2
ConsumerEats == ~z.dirty => (z.eats # "idle" => z.eats = "waiting" /\ (z.pending # {}))
(* a future only leaves the group by being returned from it *)
NeverLost == [][InGroup(z) \ InGroup(z') \subseteq
                 (CASE act'.op \in {"pop_done", "wait"} -> {act'.r}
                    [] act'.op \in {"exhaust_done"} -> {f \in Fs : act'.r[f]}
                    [] act'.op = "drain" -> {f \in Fs : act'.r[f]} \cup {z'.wait[w][2] : w \in {v \in Ws : z'.wait[v][1] = "="}}
                    [] OTHER -> {})]_<<z, act>>
=============================================================================
