-------------------------------- MODULE N03D -------------------------------
(* Tasks writing to a protocol and waiting for the writes to drain, while the transport tells when to stop writing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tasks
VARIABLES stopped,      \* whether the transport told to stop writing
          paused,       \* whether reading of the transport is paused
          lost,         \* "no", "none" or "error"
          tasks,        \* what each task does: "idle", "started", "waits", "ok", "e1", "cancelled"
          woken,        \* what a waiting task was woken with
          cancelled, act
vars == <<stopped, paused, lost, tasks, woken, cancelled>>
St == [s |-> stopped, p |-> paused, l |-> lost, t |-> tasks, w |-> woken, c |-> cancelled]
Running(t) == tasks[t] \in {"started", "waits"}
Ob == [paused |-> paused, tasks |-> [t \in Tasks |-> IF Running(t) THEN "runs" ELSE tasks[t]]]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Wake(how) == woken' = [t \in Tasks |-> IF tasks[t] = "waits" /\ woken[t] = "no" THEN how ELSE woken[t]]
Stop == /\ lost = "no" /\ ~stopped /\ stopped' = TRUE /\ Did("stop", <<>>, "-")
        /\ UNCHANGED <<paused, lost, tasks, woken, cancelled>>
Again == /\ lost = "no" /\ stopped /\ stopped' = FALSE /\ Wake("ok") /\ Did("again", <<>>, "-")
         /\ UNCHANGED <<paused, lost, tasks, cancelled>>
Flood == /\ lost = "no" /\ ~paused /\ paused' = TRUE /\ Did("flood", <<>>, "-")
         /\ UNCHANGED <<stopped, lost, tasks, woken, cancelled>>
(* something waits for more data than there is *)
Starve == /\ lost = "no" /\ paused' = FALSE /\ Did("starve", <<>>, "-") /\ UNCHANGED <<stopped, lost, tasks, woken, cancelled>>
Lose(how) == /\ lost = "no" /\ lost' = how /\ stopped' = FALSE /\ Did("lose", <<how>>, "-")
             /\ (IF stopped THEN Wake(IF how = "none" THEN "ok" ELSE "e1") ELSE UNCHANGED woken)
             /\ UNCHANGED <<paused, tasks, cancelled>>
Drain(t) == /\ ~Running(t) /\ tasks' = [tasks EXCEPT ![t] = "started"] /\ woken' = [woken EXCEPT ![t] = "no"]
            /\ Did("drain", <<t>>, "-") /\ UNCHANGED <<stopped, paused, lost, cancelled>>
Cancel(t) == /\ Running(t) /\ t \notin cancelled /\ cancelled' = cancelled \cup {t} /\ Did("cancel", <<t>>, "-")
             /\ UNCHANGED <<stopped, paused, lost, tasks, woken>>
Run == /\ cancelled' = {} /\ Did("run", <<>>, "-") /\ UNCHANGED <<stopped, paused, lost>>
       /\ woken' = [t \in Tasks |-> "no"]
       /\ tasks' = [t \in Tasks |->
            IF t \in cancelled THEN "cancelled"
            ELSE IF tasks[t] = "started"
            THEN IF lost = "error" THEN "e1" ELSE IF stopped THEN "waits" ELSE "ok"
            ELSE IF tasks[t] = "waits" /\ woken[t] # "no" THEN woken[t] ELSE tasks[t]]
Init == /\ stopped = FALSE /\ paused = FALSE /\ lost = "no" /\ tasks = [t \in Tasks |-> "idle"]
        /\ woken = [t \in Tasks |-> "no"] /\ cancelled = {} /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Next == Stop \/ Again \/ Flood \/ Starve \/ (\E h \in {"none", "error"} : Lose(h)) \/ (\E t \in Tasks : Drain(t) \/ Cancel(t)) \/ Run
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
NeverStuck == \A t \in Tasks : tasks[t] = "waits" /\ woken[t] = "no" => stopped /\ lost = "no"
=============================================================================
