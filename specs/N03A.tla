-------------------------------- MODULE N03A -------------------------------
(* Datagrams received from addresses and tasks waiting for them.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Addresses, Tasks, MaxData
VARIABLES known,        \* addresses in the order they were first received from
          count,        \* how many datagrams were received from each
          tasks,        \* <<state, address>>; "idle", "started", "waits", "got", "timeout", "cancelled"
          woken,        \* waiting tasks for which there is something, and what
          ended,        \* tasks to be ended by cancellation or timeout
          act
vars == <<known, count, tasks, woken, ended>>
St == [k |-> known, n |-> count, t |-> tasks, w |-> woken, e |-> ended]
Running(t) == tasks[t][1] \in {"started", "waits"}
Ob == [known |-> known, count |-> count,
       tasks |-> [t \in Tasks |-> IF Running(t) THEN <<"runs">> ELSE IF tasks[t][1] = "got" THEN tasks[t] ELSE <<tasks[t][1]>>]]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
In(a, s) == \E i \in 1..Len(s) : s[i] = a
Receive(a) == /\ count[a] < MaxData /\ count' = [count EXCEPT ![a] = @ + 1]
              /\ known' = IF In(a, known) THEN known ELSE Append(known, a)
              /\ woken' = [t \in Tasks |-> IF tasks[t][1] = "waits" /\ woken[t] = "no" /\ tasks[t][2] \in {"any", a}
                                           THEN a ELSE woken[t]]
              /\ Did("receive", <<a>>, "-") /\ UNCHANGED <<tasks, ended>>
Wait(t, a, timed) == /\ ~Running(t) /\ tasks' = [tasks EXCEPT ![t] = <<"started", a, timed>>] /\ woken' = [woken EXCEPT ![t] = "no"]
                     /\ Did("wait", <<t, a, timed>>, "-") /\ UNCHANGED <<known, count, ended>>
Cancel(t) == /\ Running(t) /\ ended[t] = "no" /\ ended' = [ended EXCEPT ![t] = "cancelled"]
             /\ Did("cancel", <<t>>, "-") /\ UNCHANGED <<known, count, tasks, woken>>
Run == /\ Did("run", <<>>, "-") /\ UNCHANGED <<known, count>> /\ ended' = [t \in Tasks |-> "no"]
       /\ woken' = [t \in Tasks |-> "no"]
       /\ tasks' = [t \in Tasks |->
            LET s == tasks[t]
            IN IF s[1] \notin {"started", "waits"} THEN s
               ELSE IF ended[t] # "no" THEN <<"cancelled">>
               ELSE IF s[1] = "waits" THEN IF woken[t] # "no" THEN <<"got", woken[t]>> ELSE s
               ELSE IF s[2] = "any" THEN IF known # <<>> THEN <<"got", known[1]>> ELSE <<"waits", s[2], s[3]>>
               ELSE IF In(s[2], known) THEN <<"got", s[2]>> ELSE <<"waits", s[2], s[3]>>]
(* time passes *)
Pass == /\ \A t \in Tasks : tasks[t][1] # "started" /\ woken[t] = "no" /\ ended[t] = "no"
        /\ Did("pass", <<>>, "-") /\ UNCHANGED <<known, count, woken, ended>>
        /\ tasks' = [t \in Tasks |-> IF tasks[t][1] = "waits" /\ tasks[t][3] THEN <<"timeout">> ELSE tasks[t]]
Init == /\ known = <<>> /\ count = [a \in Addresses |-> 0] /\ tasks = [t \in Tasks |-> <<"idle">>]
        /\ woken = [t \in Tasks |-> "no"] /\ ended = [t \in Tasks |-> "no"] /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Next == \/ \E a \in Addresses : Receive(a)
        \/ \E t \in Tasks : Cancel(t) \/ \E a \in Addresses \cup {"any"}, timed \in BOOLEAN : Wait(t, a, timed)
        \/ Run \/ Pass
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
NeverStuck == \A t \in Tasks : tasks[t][1] = "waits" /\ woken[t] = "no" =>
                IF tasks[t][2] = "any" THEN known = <<>> ELSE ~In(tasks[t][2], known)
=============================================================================
