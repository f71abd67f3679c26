-------------------------------- MODULE C01 --------------------------------
(* A cycler and its functions. Time is counted in half cycles of the shortest cycle time.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names,        \* of functions
          Kinds,        \* what a function does when it is called
          Times,        \* cycle times
          MaxFuncs, MaxPosts,
          Outside       \* whether it is created by an other thread
VARIABLES funcs,        \* registered functions, each <<name, priority, kind, number of it>> in the order of priority
          cycle,        \* cycle time
          due,          \* how much time is left till the next cycle, -1 if there will be none
          posted,       \* operations posted by an other thread, not yet seen by the loop
          act
vars == <<funcs, cycle, due, posted>>
St == [funcs |-> funcs, cycle |-> cycle, due |-> due, posted |-> posted]
(* how two registered functions compare: earlier, equal or later; the same is equal *)
Compared(f, g) == <<f[2] < g[2], f[2] < g[2] \/ (f[2] = g[2] /\ f[1] = g[1]), f[2] = g[2] /\ f[1] = g[1],
                    f[2] > g[2] \/ (f[2] = g[2] /\ f[1] = g[1]), f[2] > g[2]>>
Ob == [cmp |-> IF Len(funcs) > 1 THEN Compared(funcs[1], funcs[Len(funcs)]) \o Compared(funcs[Len(funcs)], funcs[1]) ELSE <<>>, due |-> due, cycle |-> cycle,
       funcs |-> [i \in 1..Len(funcs) |-> <<funcs[i][1], funcs[i][2], funcs[i][3]>>]]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]

(* the state as a record, as operations are done by functions of the cycler too *)
Z(f, c, d, log) == [funcs |-> f, cycle |-> c, due |-> d, log |-> log, alog |-> <<>>, decided |-> FALSE]
Insert(fs, f) == LET before == SelectSeq(fs, LAMBDA g : g[2] <= f[2])
                     after == SelectSeq(fs, LAMBDA g : g[2] > f[2])
                 IN before \o <<f>> \o after
RemoveFirst(fs, n) ==
  IF \E i \in 1..Len(fs) : fs[i][1] = n
  THEN LET i == CHOOSE i \in 1..Len(fs) : fs[i][1] = n /\ \A j \in 1..(i - 1) : fs[j][1] # n
       IN SubSeq(fs, 1, i - 1) \o SubSeq(fs, i + 1, Len(fs))
  ELSE fs
Other(n) == CHOOSE m \in Names : m # n
RECURSIVE Cycle(_), Calls(_, _)
(* one call of a function *)
Called(z, f) ==
  LET y == IF f[3] = "async" THEN [z EXCEPT !.alog = Append(@, f[1])] ELSE [z EXCEPT !.log = Append(@, f[1])]
      n == f[1]
      k == f[3]
  IN CASE k = "none" -> y
       [] k = "raise" -> y
       [] k = "async" -> y
       [] k = "cancel" -> [y EXCEPT !.due = -1, !.decided = TRUE]
       [] k = "reschedule" -> [y EXCEPT !.due = y.cycle, !.decided = TRUE]
       [] k = "slow down" -> [y EXCEPT !.cycle = 4]
       [] k = "remove itself" -> [y EXCEPT !.funcs = RemoveFirst(@, n)]
       [] k = "remove other" -> [y EXCEPT !.funcs = RemoveFirst(@, Other(n))]
       [] k = "append early" -> IF Len(y.funcs) < MaxFuncs
                                THEN [y EXCEPT !.funcs = Insert(@, <<Other(n), 0, "none">>)] ELSE y
       [] k = "append late" -> IF Len(y.funcs) < MaxFuncs
                               THEN [y EXCEPT !.funcs = Insert(@, <<Other(n), 2, "none">>)] ELSE y
       [] k = "cancel, start" -> [y EXCEPT !.due = y.cycle, !.decided = TRUE]
       [] k = "once more" -> \* calls the cycler now if this function was called once in this turn
            IF Len(SelectSeq(y.log, LAMBDA m : m = n)) = 1 THEN [Cycle(y) EXCEPT !.decided = TRUE] ELSE y
Calls(z, fs) == IF fs = <<>> THEN z ELSE Calls(Called(z, fs[1]), Tail(fs))
Cycle(z) == LET y == Calls([z EXCEPT !.decided = FALSE], z.funcs)
            IN IF y.decided THEN y ELSE [y EXCEPT !.due = y.cycle]
Is(z) == funcs' = z.funcs /\ cycle' = z.cycle /\ due' = z.due
Now == Z(funcs, cycle, due, <<>>)

(* operations *)
Appended(z, f) == [z EXCEPT !.funcs = Insert(@, f)]
Done(z, op) == CASE op[1] = "append" -> Appended(z, op[2])
                 [] op[1] = "remove" -> [z EXCEPT !.funcs = RemoveFirst(@, op[2])]
                 [] op[1] = "cancel" -> [z EXCEPT !.due = -1]
                 [] op[1] = "reschedule" -> [z EXCEPT !.due = z.cycle]
                 [] op[1] = "call_now" -> Cycle(z)
Ops == {<<"append", <<n, p, k>> >> : n \in Names, p \in {0, 1, 2}, k \in Kinds}
         \cup {<<"remove", n>> : n \in Names} \cup {<<"cancel", "-">>, <<"reschedule", "-">>, <<"call_now", "-">>}
Fits(op) == op[1] = "append" =>
               /\ Len(funcs) + Len(SelectSeq(posted, LAMBDA o : o[1] = "append")) < MaxFuncs
               /\ op[2][2] = 1 \/ op[2][3] = "none"
(* by the loop's own thread *)
Do(op) == /\ Fits(op) /\ posted = <<>>
          /\ LET z == Done(Now, op) IN Is(z) /\ Did(op[1], <<op[2]>>, z.log \o z.alog)
          /\ UNCHANGED posted
SetTime(t) == /\ t # cycle /\ cycle' = t /\ Did("set_cycle_time", <<t>>, "-") /\ UNCHANGED <<funcs, due, posted>>
(* by an other thread, the loop does them when it wakes up *)
Post(op) == /\ Fits(op) /\ Len(posted) < MaxPosts /\ posted' = Append(posted, op) /\ Did("post", op, "-")
            /\ UNCHANGED <<funcs, cycle, due>>
(* the loop does what was posted and calls the cycler if it is time *)
RECURSIVE AllDone(_, _)
AllDone(z, ops) == IF ops = <<>> THEN z ELSE AllDone(Done(z, ops[1]), Tail(ops))
Settle == LET ops == posted
              \* the due cycle was scheduled earlier, but callbacks to run soon are ready earlier
              y == AllDone(Now, ops)
              z == IF y.due = 0 THEN Cycle(y) ELSE y
          IN /\ posted # <<>> \/ due = 0
             /\ Is(z) /\ posted' = <<>> /\ Did("settle", <<>>, z.log \o z.alog)
Pass == /\ posted = <<>> /\ due # 0 /\ due' = IF due < 0 THEN due ELSE due - 1
        /\ Did("pass", <<>>, "-") /\ UNCHANGED <<funcs, cycle, posted>>
Init == /\ funcs = <<>> /\ cycle = 2 /\ due = 2
        /\ posted = IF Outside THEN << <<"reschedule", "-">> >> ELSE <<>>
        /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Next == (\E op \in Ops : Do(op) \/ Post(op)) \/ (\E t \in Times : SetTime(t)) \/ Settle \/ Pass
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
Calling == {"settle", "call_now"}
Ordered == \A i, j \in 1..Len(funcs) : i < j => funcs[i][2] <= funcs[j][2]
OnlyWhenDue == [][act'.op = "settle" /\ act'.r # <<>> /\ due # 0 =>
                   \E i \in 1..Len(posted) : posted[i][1] = "call_now"]_<<vars, act>>
NoneOnceCancelled == [][act'.op = "settle" /\ due = -1 /\ act'.r # <<>> =>
                         \E i \in 1..Len(posted) : posted[i][1] = "call_now"]_<<vars, act>>
Calm == {"none", "raise", "async", "cancel", "reschedule", "slow down", "remove itself", "remove other", "append early",
         "append late", "cancel, start"}
EachOnce == [][act'.op = "settle" /\ posted = <<>> /\ due = 0 /\ (\A i \in 1..Len(funcs) : funcs[i][3] \in Calm) =>
                act'.r = LET fs == SelectSeq(funcs, LAMBDA f : f[3] # "async") \o SelectSeq(funcs, LAMBDA f : f[3] = "async")
                         IN [i \in 1..Len(fs) |-> fs[i][1]]]_<<vars, act>>
Goes == [][act'.op = "settle" /\ due >= 0 /\ due' = -1 =>
            \/ \E i \in 1..Len(funcs) : funcs[i][3] = "cancel"
            \/ \E i \in 1..Len(posted) : posted[i][1] = "cancel" \/ (posted[i][1] = "append" /\ posted[i][2][3] = "cancel")]_<<vars, act>>
=============================================================================
