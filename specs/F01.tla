-------------------------------- MODULE F01 --------------------------------
(* A future: settled at most once, every registered callback notified exactly once by the event loop.               *)
(* Callbacks "a" and "b" only count; "r" is re-entrant: when called it tries to settle the future and adds "a";      *)
(* "x" counts and raises.                                                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Callbacks, Values, Errors, MaxAdded

VARIABLES outcome,  \* "pending", <<"result", v>>, <<"error", e>>, <<"cancelled">>, <<"cancelled with", e>>
          registered, \* callback -> registrations waiting for the future to settle
          due,        \* callback -> calls the loop owes
          added,      \* how many registrations were made (bounds the model)
          act
vars == <<outcome, registered, due, added>>

None == [c \in Callbacks |-> 0]
Bag(c) == [None EXCEPT ![c] = 1]
Plus(f, g) == [c \in Callbacks |-> f[c] + g[c]]
Pending == outcome = <<"pending">>

(* what the readers of the future show *)
GetResult(o) == CASE o[1] = "pending" -> <<"invalid state">>
                  [] o[1] = "result" -> <<"returns", o[2]>>
                  [] o[1] = "error" -> <<"raises", o[2]>>
                  [] o[1] = "cancelled" -> <<"raises", "cancelled">>
                  [] o[1] = "cancelled with" -> <<"raises", o[2]>>
GetException(o) == CASE o[1] = "pending" -> <<"invalid state">>
                     [] o[1] = "result" -> <<"returns", "none">>
                     [] o[1] = "error" -> <<"returns", o[2]>>
                     [] o[1] = "cancelled" -> <<"returns", "cancelled">>
                     [] o[1] = "cancelled with" -> <<"returns", o[2]>>
GetCancellation(o) == CASE o[1] = "cancelled" -> <<"returns", "cancelled">>
                        [] o[1] = "cancelled with" -> <<"returns", o[2]>>
                        [] OTHER -> <<"returns", "none">>

St == [outcome |-> outcome, registered |-> registered, due |-> due, added |-> added]
Ob == [result |-> GetResult(outcome), exception |-> GetException(outcome), cancellation |-> GetCancellation(outcome),
       done |-> outcome[1] # "pending", pending |-> outcome[1] = "pending",
       cancelled |-> outcome[1] \in {"cancelled", "cancelled with"},
       registered |-> registered]

Init == /\ outcome = <<"pending">> /\ registered = None /\ due = None /\ added = 0
        /\ act = [op |-> "init", a |-> <<>>, r |-> <<>>]

Did(op, a, ret, calls) == act' = [op |-> op, a |-> a, r |-> [ret |-> ret, calls |-> calls]]

(* settling hands every registration over to the loop *)
SettleAs(o) == /\ outcome' = o /\ due' = Plus(due, registered) /\ registered' = None /\ UNCHANGED added
Same == UNCHANGED vars

Strict(op, a, o) == \/ Pending /\ SettleAs(o) /\ Did(op, a, "ok", None)
                    \/ ~Pending /\ Same /\ Did(op, a, "invalid state", None)
IfPending(op, a, o) == \/ Pending /\ SettleAs(o) /\ Did(op, a, "1", None)
                       \/ ~Pending /\ Same /\ Did(op, a, "0", None)

SetResult(v) == Strict("set_result", <<v>>, <<"result", v>>)
SetException(e) == Strict("set_exception", <<e>>, <<"error", e>>)
SetExceptionType(e) == Strict("set_exception_type", <<e>>, <<"error", e>>)
SetResultIfPending(v) == IfPending("set_result_if_pending", <<v>>, <<"result", v>>)
SetExceptionIfPending(e) == IfPending("set_exception_if_pending", <<e>>, <<"error", e>>)
Cancel == IfPending("cancel", <<>>, <<"cancelled">>)
CancelWith(e) == IfPending("cancel_with", <<e>>, <<"cancelled with", e>>)
(* an iteration-ending exception cannot be raised out of a future: refused, nothing changes *)
SetStopIteration == Same /\ Did("set_stop_iteration", <<>>, IF Pending THEN "type error" ELSE "invalid state", None)
SetStopIterationIfPending ==
  Same /\ Did("set_stop_iteration_if_pending", <<>>, IF Pending THEN "type error" ELSE "0", None)
CancelWithStopIteration == Same /\ Did("cancel_with_stop_iteration", <<>>, IF Pending THEN "type error" ELSE "0", None)
Silence == Same /\ Did("silence", <<>>, "ok", None)

Add(c) == /\ added < MaxAdded /\ added' = added + 1 /\ UNCHANGED outcome
          /\ IF Pending THEN registered' = Plus(registered, Bag(c)) /\ UNCHANGED due
                        ELSE due' = Plus(due, Bag(c)) /\ UNCHANGED registered
          /\ Did("add", <<c>>, "ok", None)
Remove(c) == /\ registered' = [registered EXCEPT ![c] = 0] /\ UNCHANGED <<outcome, due, added>>
             /\ Did("remove", <<c>>, ToString(registered[c]), None)

(* the loop runs one due callback *)
After(c) == IF c = "r" THEN Plus(due, Bag("a")) ELSE due
RunOne == \E c \in Callbacks : /\ due[c] > 0
                               /\ due' = [After(c) EXCEPT ![c] = @ - 1]
                               /\ UNCHANGED <<outcome, registered, added>>
                               /\ Did("run_one", <<>>, "ok", Bag(c))
(* the loop runs everything that is due, and what becomes due meanwhile *)
Owed == IF "r" \in Callbacks THEN [due EXCEPT !["a"] = @ + due["r"]] ELSE due
RunAll == /\ due' = None /\ UNCHANGED <<outcome, registered, added>>
          /\ Did("run_all", <<>>, "ok", Owed)

Next == \/ \E v \in Values : SetResult(v) \/ SetResultIfPending(v)
        \/ \E e \in Errors : SetException(e) \/ SetExceptionIfPending(e) \/ SetExceptionType(e) \/ CancelWith(e)
        \/ Cancel \/ SetStopIteration \/ SetStopIterationIfPending \/ CancelWithStopIteration \/ Silence
        \/ \E c \in Callbacks : Add(c) \/ Remove(c)
        \/ RunOne \/ RunAll

Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
SettledOnce == [][outcome # <<"pending">> => outcome' = outcome]_<<vars, act>>
NotifiedOnlyAfter == (due # None) => outcome # <<"pending">>
NothingLeftBehind == outcome # <<"pending">> => registered = None
NeverSynchronous == [][act'.op \notin {"run_one", "run_all"} => act'.r.calls = None]_<<vars, act>>
=============================================================================
