-------------------------------- MODULE S03 --------------------------------
(* Asynchronous queues: receivers that await or iterate, receivers that do not wait, producers that wait for room or *)
(* do not. Lifo: the stack variant. Max = 0: unbounded.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Getters, Putters, Max, MaxPut, Lifo, Hows, Errors
VARIABLES z, act
None == "-"
Start == [items |-> <<>>,    \* the elements in the queue, in order of arrival
          get |-> [g \in Getters |-> <<"idle">>],   \* what a receiver does
          put |-> [p \in Putters |-> <<"idle">>],
          waiting |-> <<>>,  \* waiting receivers, in order
          blocked |-> <<>>,  \* producers waiting for room, in order
          exc |-> None, n |-> 0, ready |-> <<>>, dirty |-> FALSE, ended |-> [x \in Getters \cup Putters |-> <<"-">>]]
Room(y) == Max = 0 \/ Len(y.items) < Max
Without(q, t) == SelectSeq(q, LAMBDA x : x # t)
Wake(y, x) == [y EXCEPT !.ready = Append(@, x)]

(* an element goes to the first waiting receiver *)
Give(y, e) == LET g == Head(y.waiting)
              IN Wake([y EXCEPT !.get[g] = <<"given", e, y.get[g][2]>>, !.waiting = Tail(@)], g)
Store(y, e) == [y EXCEPT !.items = Append(@, e)]
PutBack(y, e) == IF y.waiting # <<>> THEN Give(y, e)
                 ELSE [y EXCEPT !.items = IF Lifo THEN Append(@, e) ELSE <<e>> \o @]
NextItem(y) == IF Lifo THEN y.items[Len(y.items)] ELSE Head(y.items)
Remove(y) == [y EXCEPT !.items = IF Lifo THEN SubSeq(@, 1, Len(@) - 1) ELSE Tail(@)]
(* room is given to the producers waiting for it *)
RECURSIVE Poll(_)
Poll(y) == IF y.blocked = <<>> \/ ~Room(y) THEN y
           ELSE LET p == Head(y.blocked)
                IN Poll(Wake(Store([y EXCEPT !.blocked = Tail(@), !.put[p] = <<"accepted">>], y.put[p][2]), p))
Taken(y) == Poll(Remove(y))

End(y, x, how) == [y EXCEPT !.ended[x] = how]
EndGet(y, g, how) == [End(y, g, how) EXCEPT !.get[g] = <<"idle">>]
EndPut(y, p, how) == [End(y, p, how) EXCEPT !.put[p] = <<"idle">>]
Raised(how, x) == IF how = "iterate" /\ x = "cancelled" THEN <<"stopped">>
                  ELSE IF x = "cancelled" THEN <<"cancelled">> ELSE <<"error", x>>

RunGet(y, g) ==
  LET s == y.get[g] IN
  CASE s[1] = "new" -> IF y.items # <<>> THEN EndGet(Taken(y), g, <<"got", NextItem(y)>>)
                       ELSE IF y.exc # None THEN EndGet(y, g, Raised(s[2], y.exc))
                       ELSE [y EXCEPT !.get[g] = <<"waiting", s[2]>>, !.waiting = Append(@, g)]
    [] s[1] = "given" -> EndGet(y, g, <<"got", s[2]>>)
    [] s[1] = "failed" -> EndGet(y, g, Raised(s[2], s[3]))
    [] s[1] = "gone" -> EndGet(IF Len(s) = 2 THEN PutBack(y, s[2]) ELSE y, g, <<"cancelled">>)
RunPut(y, p) ==
  LET s == y.put[p] IN
  CASE s[1] = "new" -> IF y.waiting # <<>> THEN EndPut(Give(y, s[2]), p, <<"put", 0>>)
                       ELSE IF Room(y) THEN EndPut(Store(y, s[2]), p, <<"put", 0>>)
                       ELSE [y EXCEPT !.put[p] = <<"blocked", s[2]>>, !.blocked = Append(@, p)]
    [] s[1] = "accepted" -> EndPut(y, p, <<"put", 2>>)
    [] s[1] = "refused" -> EndPut(y, p, <<"put", 1>>)
    [] s[1] = "gone" -> EndPut(y, p, <<"cancelled">>)
Run(y, x) == IF x \in Getters THEN RunGet(y, x) ELSE RunPut(y, x)
RECURSIVE DrainOf(_)
DrainOf(y) == IF y.ready = <<>> THEN y ELSE DrainOf(Run([y EXCEPT !.ready = Tail(@)], Head(y.ready)))

Dirty(y) == [y EXCEPT !.dirty = TRUE]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Init == z = Start /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Get(g, how) == /\ z.get[g][1] = "idle" /\ z' = Dirty(Wake([z EXCEPT !.get[g] = <<"new", how>>], g)) /\ Did("get", <<g, how>>, "-")
PutWait(p) == /\ z.put[p][1] = "idle" /\ z.n < MaxPut
              /\ z' = Dirty(Wake([z EXCEPT !.put[p] = <<"new", z.n + 1>>, !.n = @ + 1], p)) /\ Did("put_wait", <<p, z.n + 1>>, "-")
PutNow == /\ z.n < MaxPut
          /\ LET e == z.n + 1 IN
             IF z.waiting # <<>> THEN z' = Dirty(Give([z EXCEPT !.n = e], e)) /\ Did("put", <<e>>, 0)
             ELSE IF Room(z) THEN z' = Store([z EXCEPT !.n = e], e) /\ Did("put", <<e>>, 0)
             ELSE z' = [z EXCEPT !.n = e] /\ Did("put", <<e>>, 1)
GetNow == IF z.items # <<>> THEN z' = Dirty(Taken(z)) /\ Did("get_now", <<>>, <<"got", NextItem(z)>>)
          ELSE UNCHANGED z /\ Did("get_now", <<>>, IF z.exc = None THEN <<"empty">> ELSE Raised("await", z.exc))
CancelGet(g) ==
  LET s == z.get[g] IN
  /\ s[1] \in {"new", "waiting", "given", "failed"}
  /\ z' = Dirty(CASE s[1] = "waiting" -> Wake([z EXCEPT !.get[g] = <<"gone">>, !.waiting = Without(@, g)], g)
                  [] s[1] = "given" -> [z EXCEPT !.get[g] = <<"gone", s[2]>>]
                  [] OTHER -> [z EXCEPT !.get[g] = <<"gone">>])
  /\ Did("cancel", <<g>>, "-")
CancelPut(p) ==
  LET s == z.put[p] IN
  /\ s[1] \in {"new", "blocked", "accepted", "refused"}
  /\ z' = Dirty(CASE s[1] = "blocked" -> Wake([z EXCEPT !.put[p] = <<"gone">>, !.blocked = Without(@, p)], p)
                  [] OTHER -> [z EXCEPT !.put[p] = <<"gone">>])
  /\ Did("cancel", <<p>>, "-")
RECURSIVE FailAll(_, _), RefuseAll(_)
FailAll(y, x) == IF y.waiting = <<>> THEN y
                 ELSE LET g == Head(y.waiting)
                      IN FailAll(Wake([y EXCEPT !.get[g] = <<"failed", y.get[g][2], x>>, !.waiting = Tail(@)], g), x)
RefuseAll(y) == IF y.blocked = <<>> THEN y
                ELSE LET p == Head(y.blocked) IN RefuseAll(Wake([y EXCEPT !.put[p] = <<"refused">>, !.blocked = Tail(@)], p))
SetException(x) == /\ z.exc = None /\ z' = Dirty(RefuseAll(FailAll([z EXCEPT !.exc = x], x))) /\ Did("set_exception", <<x>>, "-")
Clear == /\ z.items # <<>> /\ z' = Dirty(Poll([z EXCEPT !.items = <<>>])) /\ Did("clear", <<>>, "-")
Reverse == /\ Len(z.items) > 1 /\ z' = [z EXCEPT !.items = [k \in 1..Len(@) |-> @[Len(@) + 1 - k]]] /\ Did("reverse", <<>>, "-")
Drain == LET y == DrainOf(z) IN /\ z.dirty /\ z' = [y EXCEPT !.dirty = FALSE, !.ended = Start.ended] /\ Did("drain", <<>>, y.ended)
Next == \/ \E g \in Getters : CancelGet(g) \/ \E how \in Hows : Get(g, how)
        \/ \E p \in Putters : PutWait(p) \/ CancelPut(p)
        \/ PutNow \/ GetNow \/ Clear \/ Reverse \/ Drain
        \/ \E x \in Errors : SetException(x)
Spec == Init /\ [][Next]_<<z, act>>
St == z
View == z
Ob == [len |-> Len(z.items), max |-> Max]
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
Holding(y) == {e \in 1..MaxPut : \/ \E k \in 1..Len(y.items) : y.items[k] = e
                                 \/ \E g \in Getters : y.get[g][1] = "given" /\ y.get[g][2] = e
                                 \/ \E g \in Getters : y.get[g][1] = "gone" /\ Len(y.get[g]) = 2 /\ y.get[g][2] = e
                                 \/ \E p \in Putters : y.put[p][1] \in {"new", "blocked"} /\ y.put[p][2] = e}
Unique == Cardinality({k \in 1..Len(z.items) : \E j \in 1..Len(z.items) : j # k /\ z.items[j] = z.items[k]}) = 0
(* once the loop is idle nobody waits for what is there *)
NoneStarves == ~z.dirty => /\ (z.waiting # <<>> => z.items = <<>> /\ z.exc = None)
                           /\ (z.blocked # <<>> => ~Room(z))
(* an element only leaves by being received, cleared, refused, or because the put itself was cancelled *)
Received(r) == {r[x][2] : x \in {g \in DOMAIN r : r[g][1] = "got"}}
NeverLost == [][Holding(z) \ Holding(z') \subseteq
                (CASE act'.op = "drain" -> Received(act'.r)
                   [] act'.op = "get_now" -> IF act'.r[1] = "got" THEN {act'.r[2]} ELSE {}
                   [] act'.op \in {"clear", "cancel", "set_exception"} -> IF act'.op = "cancel" /\ act'.a[1] \in Getters THEN {} ELSE 1..MaxPut
                   [] OTHER -> {})]_<<z, act>>
=============================================================================
