-------------------------------- MODULE S01 --------------------------------
(* A lock with Size slots (1: a mutex), handed over in the order it was asked for. Also decides the size-limited lock *)
(* of S05. Watchers await the lock being free without taking it.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tasks, Watchers, Size, HolderCancel
VARIABLES st,     \* task -> "idle", "new" (its request was not run yet), "dead" (cancelled before it), "waiting",
                  \* "given" (a slot was passed to it, it does not know yet), "holding", "left", "cancelled"
          fresh,  \* requests the loop has not run yet, in order
          queue,  \* waiting tasks, in order
          w,      \* watcher -> "idle", "waiting", "leaving" (cancelled), "done", "cancelled"
          freed,  \* the lock was free at a moment since the loop last ran
          dirty,  \* the loop has something to run
          act
vars == <<st, fresh, queue, w, freed, dirty>>
Busy(s) == Cardinality({t \in Tasks : s[t] \in {"given", "holding"}})
Without(q, t) == SelectSeq(q, LAMBDA x : x # t)
St == [st |-> st, fresh |-> fresh, queue |-> queue, w |-> w, freed |-> freed, dirty |-> dirty]
Show(x) == CASE x \in {"idle", "new", "dead"} -> "idle" [] OTHER -> x
Ob == IF dirty THEN [dirty |-> TRUE]
      ELSE [dirty |-> FALSE, st |-> [t \in Tasks |-> Show(st[t])], w |-> w, locked |-> Busy(st) >= Size,
            acquired |-> Busy(st), waiting |-> Len(queue)]
Init == /\ st = [t \in Tasks |-> "idle"] /\ fresh = <<>> /\ queue = <<>> /\ w = [x \in Watchers |-> "idle"]
        /\ freed = FALSE /\ dirty = FALSE /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Resting(t) == st[t] \in {"idle", "left", "cancelled"}

(* a slot became free: it is passed to the first waiting task *)
PassOn(s, q) == IF q = <<>> THEN [s |-> s, q |-> q]
                ELSE [s |-> [s EXCEPT ![Head(q)] = "given"], q |-> Tail(q)]

Ask(t) == /\ Resting(t) /\ st' = [st EXCEPT ![t] = "new"] /\ fresh' = Append(fresh, t) /\ dirty' = TRUE
          /\ UNCHANGED <<queue, w, freed>> /\ Did("ask", <<t>>, "-")
Release(t, why) == LET p == PassOn([st EXCEPT ![t] = why], queue)
                   IN st' = p.s /\ queue' = p.q /\ freed' = (freed \/ Busy(p.s) = 0)
Leave(t) == /\ st[t] = "holding" /\ Release(t, "left") /\ dirty' = TRUE
            /\ UNCHANGED <<fresh, w>> /\ Did("leave", <<t>>, "-")
Cancel(t) ==
  /\ \/ st[t] = "new" /\ st' = [st EXCEPT ![t] = "dead"] /\ fresh' = Without(fresh, t) /\ UNCHANGED <<queue, freed>>
     \/ st[t] = "waiting" /\ st' = [st EXCEPT ![t] = "cancelled"] /\ queue' = Without(queue, t) /\ UNCHANGED <<fresh, freed>>
     \/ st[t] = "given" /\ Release(t, "cancelled") /\ UNCHANGED fresh
     \/ st[t] = "holding" /\ HolderCancel /\ Release(t, "cancelled") /\ UNCHANGED fresh
  /\ dirty' = TRUE /\ UNCHANGED w /\ Did("cancel", <<t>>, "-")
Watch(x) == /\ w[x] \in {"idle", "done", "cancelled"} /\ ~dirty
            /\ w' = [w EXCEPT ![x] = IF Busy(st) = 0 THEN "done" ELSE "waiting"]
            /\ UNCHANGED <<st, fresh, queue, freed, dirty>> /\ Did("watch", <<x>>, "-")
Unwatch(x) == /\ w[x] = "waiting" /\ w' = [w EXCEPT ![x] = "leaving"] /\ dirty' = TRUE
              /\ UNCHANGED <<st, fresh, queue, freed>> /\ Did("unwatch", <<x>>, "-")

RECURSIVE Admit(_, _, _)
Admit(s, f, q) == IF f = <<>> THEN [s |-> s, q |-> q]
                  ELSE IF Busy(s) < Size THEN Admit([s EXCEPT ![Head(f)] = "given"], Tail(f), q)
                  ELSE Admit([s EXCEPT ![Head(f)] = "waiting"], Tail(f), Append(q, Head(f)))
Drain ==
  LET p == Admit(st, fresh, queue)
      got == {t \in Tasks : p.s[t] = "given"}
  IN /\ st' = [t \in Tasks |-> CASE p.s[t] = "given" -> "holding" [] p.s[t] = "dead" -> "cancelled" [] OTHER -> p.s[t]]
     /\ queue' = p.q /\ fresh' = <<>> /\ freed' = FALSE /\ dirty' = FALSE
     /\ \E h \in [Watchers -> BOOLEAN] :
          /\ \A x \in Watchers : h[x] => w[x] = "waiting" /\ freed
          /\ (Busy(p.s) = 0) => \A x \in Watchers : w[x] = "waiting" => h[x]
          /\ w' = [x \in Watchers |-> IF h[x] THEN "done" ELSE IF w[x] = "leaving" THEN "cancelled" ELSE w[x]]
     /\ Did("drain", <<>>, [t \in Tasks |-> t \in got])
Next == (\E t \in Tasks : Ask(t) \/ Leave(t) \/ Cancel(t)) \/ (\E x \in Watchers : Watch(x) \/ Unwatch(x)) \/ Drain
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
Exclusive == Busy(st) <= Size
NeverLost == queue # <<>> => Busy(st) = Size
InOrder == \A i, j \in 1..Len(queue) : i # j => queue[i] # queue[j]
OnlyOneEnds == [][act'.op = "cancel" => \A t \in Tasks : t # act'.a[1] => st'[t] = st[t] \/ (st[t] = "waiting" /\ st'[t] = "given")]_<<vars, act>>
Served == <>[](\A t \in Tasks : st[t] # "waiting")
Fair == Spec /\ WF_<<vars, act>>(Drain) /\ (\A t \in Tasks : SF_<<vars, act>>(Leave(t)))
WaitingIsServed == \A t \in Tasks : (st[t] = "waiting") ~> (st[t] # "waiting")
=============================================================================
