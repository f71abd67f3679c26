-------------------------------- MODULE N03P -------------------------------
(* A transport reading a pipe.                                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFeeds, React
VARIABLES there,        \* chunks in the pipe
          given,        \* how many were put there
          ended,        \* whether its other end is closed
          paused, closing, lost, made, act
vars == <<there, given, ended, paused, closing, lost, made>>
St == [t |-> there, g |-> given, e |-> ended, p |-> paused, c |-> closing, l |-> lost, m |-> made]
Reads == made /\ ~closing /\ ~paused
Ob == [reading |-> Reads, closing |-> closing, closed |-> lost = "done"]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Feed == /\ given < MaxFeeds /\ ~ended /\ lost # "done" /\ given' = given + 1 /\ there' = there + 1 /\ Did("feed", <<>>, "-")
        /\ UNCHANGED <<ended, paused, closing, lost, made>>
End == /\ ~ended /\ ended' = TRUE /\ Did("end", <<>>, "-") /\ UNCHANGED <<there, given, paused, closing, lost, made>>
Close == /\ made /\ closing' = TRUE /\ lost' = (IF closing THEN lost ELSE "soon") /\ Did("close", <<>>, "-")
         /\ UNCHANGED <<there, given, ended, paused, made>>
Pause == /\ made /\ paused' = (paused \/ ~closing) /\ Did("pause", <<>>, ~(closing \/ paused))
         /\ UNCHANGED <<there, given, ended, closing, lost, made>>
Resume == /\ made /\ paused' = (paused /\ closing) /\ Did("resume", <<>>, paused /\ ~closing)
          /\ UNCHANGED <<there, given, ended, closing, lost, made>>
(* what happens in a cycle of the loop: <<log, how many were received, paused, closing, lost>> *)
Log(what) == Did("cycle", <<>>, what)
Cycle ==
  /\ made' = TRUE /\ UNCHANGED <<given, ended>>
  /\ IF ~made
     THEN /\ UNCHANGED there
          /\ CASE React = "made: close" -> closing' = TRUE /\ lost' = "done" /\ Log(<<"made", "lost none">>) /\ UNCHANGED paused
               [] React = "made: pause" -> paused' = TRUE /\ Log(<<"made">>) /\ UNCHANGED <<closing, lost>>
               [] OTHER -> Log(<<"made">>) /\ UNCHANGED <<paused, closing, lost>>
     ELSE IF lost = "soon"
     THEN lost' = "done" /\ Log(<<"lost none">>) /\ UNCHANGED <<there, paused, closing>>
     ELSE IF Reads /\ there > 0
     THEN /\ there' = 0
          /\ CASE React = "data: close" -> closing' = TRUE /\ lost' = "done" /\ Log(<<there, "data", "lost none">>) /\ UNCHANGED paused
               [] React = "data: pause" -> paused' = TRUE /\ Log(<<there, "data">>) /\ UNCHANGED <<closing, lost>>
               [] OTHER -> Log(<<there, "data">>) /\ UNCHANGED <<paused, closing, lost>>
     ELSE IF Reads /\ ended
     THEN closing' = TRUE /\ lost' = "done" /\ Log(<<"end", "lost none">>) /\ UNCHANGED <<there, paused>>
     ELSE Log(<<>>) /\ UNCHANGED <<there, paused, closing, lost>>
Init == /\ there = 0 /\ given = 0 /\ ended = FALSE /\ paused = FALSE /\ closing = FALSE /\ lost = "no" /\ made = FALSE
        /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Next == Feed \/ End \/ Close \/ Pause \/ Resume \/ Cycle
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property: the end is told only after everything was read *)
EndLast == [][act'.op = "cycle" /\ lost = "no" /\ lost' = "done" /\ closing' /\ ~closing /\ React \notin {"made: close", "data: close"}
                => there = 0 /\ ended]_<<vars, act>>
=============================================================================
