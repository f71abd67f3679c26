-------------------------------- MODULE N02 --------------------------------
(* A payload stream, what puts chunks into it and its consumer, which is a task.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chunks, MaxChunks, Modes, Ends, Kinds, MaxCallbacks, Consumers
VARIABLES buffer,       \* chunks not consumed
          given,        \* how many were added
          done,         \* "no", "success", "failed", "cancelled", "aborted"
          mode,         \* "none", "whole", "chunks"
          phase,        \* of the consumer
          wanted,       \* how the consumer consumes
          hand,         \* what the waiting consumer was woken with, <<>> if it was not
          cancelled,    \* whether cancelling the consumer was requested since it ran
          got,          \* what the consumer got
          callbacks,    \* waiting to be called
          consumers, act
vars == <<buffer, given, done, mode, phase, wanted, hand, cancelled, got, callbacks, consumers>>
St == [b |-> buffer, n |-> given, d |-> done, m |-> mode, p |-> phase, w |-> wanted, h |-> hand, c |-> cancelled, g |-> got,
       cb |-> callbacks, cs |-> consumers]
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE s[1] + Size(Tail(s))
Bad == done \in {"failed", "cancelled", "aborted"}
Ob == [size |-> IF Bad THEN 0 ELSE Size(buffer), buffered |-> IF Bad \/ mode = "whole" THEN 0 ELSE Size(buffer),
       aborted |-> done = "aborted", got |-> got,
       consumer |-> IF phase = "left" THEN "ended" ELSE IF phase \in {"none", "ended", "cancelled"} THEN phase
                    ELSE IF phase = "raised" THEN hand[1] ELSE "running"]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Error == CASE done = "failed" -> "e1" [] OTHER -> "connection"
(* calling the callbacks: how often a callback of each kind was called *)
Called == [k \in Kinds |-> Cardinality({i \in 1..Len(callbacks) : callbacks[i] = k})
                             + IF k = "plain" THEN Cardinality({i \in 1..Len(callbacks) : callbacks[i] = "adds"}) ELSE 0]
None == [k \in Kinds |-> 0]
Waiting == phase = "waiting" /\ hand = <<>>

Add(c) == /\ given < MaxChunks /\ given' = given + 1
          /\ UNCHANGED <<done, mode, phase, wanted, cancelled, got, callbacks, consumers>>
          /\ IF done # "no" THEN Did("add", <<c>>, FALSE) /\ UNCHANGED <<buffer, hand>>
             ELSE /\ Did("add", <<c>>, TRUE)
                  /\ IF Waiting /\ wanted = "chunks" /\ ~cancelled
                     THEN hand' = <<"chunk", c>> /\ UNCHANGED buffer
                     ELSE buffer' = Append(buffer, c) /\ UNCHANGED hand
Settle(how) ==
  /\ UNCHANGED <<given, mode, phase, wanted, cancelled, got, consumers>>
  /\ IF done # "no" THEN Did("settle", <<how>>, <<FALSE, None>>) /\ UNCHANGED <<buffer, done, hand, callbacks>>
     ELSE /\ Did("settle", <<how>>, <<TRUE, Called>>) /\ done' = how /\ callbacks' = <<>>
          /\ buffer' = IF how = "success" THEN buffer ELSE <<>>
          /\ hand' = IF Waiting /\ ~cancelled
                     THEN IF how = "success" THEN <<"end">>
                          ELSE IF how = "failed" THEN <<"raise", "e1">> ELSE <<"raise", "connection">>
                     ELSE hand
Callback(k) ==
  /\ UNCHANGED <<buffer, given, done, mode, phase, wanted, hand, cancelled, got, consumers>>
  /\ IF done = "no"
     THEN /\ Len(callbacks) < MaxCallbacks /\ callbacks' = Append(callbacks, k) /\ Did("callback", <<k>>, None)
     ELSE /\ UNCHANGED callbacks
          /\ Did("callback", <<k>>, [q \in Kinds |-> IF q = k \/ (q = "plain" /\ k = "adds") THEN 1 ELSE 0])
Active == phase \in {"starting", "waiting", "holding", "asking", "leaving"}
Start(m) == /\ ~Active /\ consumers < Consumers /\ consumers' = consumers + 1
            /\ phase' = "starting" /\ wanted' = m /\ got' = <<>> /\ hand' = <<>> /\ cancelled' = FALSE
            /\ Did("start", <<m>>, "-") /\ UNCHANGED <<buffer, given, done, mode, callbacks>>
Ask == /\ phase = "holding" /\ ~cancelled /\ phase' = "asking" /\ Did("ask", <<>>, "-")
       /\ UNCHANGED <<buffer, given, done, mode, wanted, hand, cancelled, got, callbacks, consumers>>
Leave == /\ phase = "holding" /\ ~cancelled /\ phase' = "leaving" /\ Did("leave", <<>>, "-")
         /\ UNCHANGED <<buffer, given, done, mode, wanted, hand, cancelled, got, callbacks, consumers>>
Cancel == /\ Active /\ ~cancelled /\ cancelled' = TRUE /\ Did("cancel", <<>>, "-")
          /\ UNCHANGED <<buffer, given, done, mode, phase, wanted, hand, got, callbacks, consumers>>
Abort(calls) == IF done = "no" THEN done' = "aborted" /\ callbacks' = <<>> /\ Did("drain", <<>>, Called)
                ELSE UNCHANGED <<done, callbacks>> /\ Did("drain", <<>>, None)
Quiet == UNCHANGED <<done, callbacks>> /\ Did("drain", <<>>, None)
To(p, h, g, b) == phase' = p /\ hand' = h /\ got' = g /\ buffer' = b
(* the consumer looks at the stream *)
Looks == IF Bad THEN To("raised", <<Error>>, got, buffer)
         ELSE IF wanted = "whole"
         THEN IF done = "success" THEN To("ended", <<>>, <<Size(buffer)>>, <<>>) ELSE To("waiting", <<>>, got, buffer)
         ELSE IF buffer # <<>> THEN To("holding", <<>>, Append(got, buffer[1]), Tail(buffer))
         ELSE IF done = "success" THEN To("ended", <<>>, got, buffer)
         ELSE To("waiting", <<>>, got, buffer)
Drain ==
  /\ UNCHANGED <<given, wanted, consumers>> /\ cancelled' = FALSE
  /\ IF cancelled
     THEN /\ To("cancelled", <<>>, got, buffer) /\ UNCHANGED mode
          /\ IF phase = "starting" THEN Quiet ELSE Abort(TRUE)
     ELSE CASE phase = "starting" ->
               /\ Quiet
               /\ IF mode # "none" /\ mode # wanted
                  THEN UNCHANGED mode /\ To("raised", <<"runtime">>, got, buffer)
                  ELSE mode' = wanted /\ Looks
            [] phase = "asking" -> UNCHANGED mode /\ Quiet /\ Looks
            [] phase = "leaving" -> UNCHANGED mode /\ Abort(TRUE) /\ To("left", <<>>, got, buffer)
            [] phase = "waiting" /\ hand # <<>> ->
               /\ UNCHANGED mode /\ Quiet
               /\ (CASE hand[1] = "chunk" -> To("holding", <<>>, Append(got, hand[2]), buffer)
                    [] hand[1] = "end" -> IF wanted = "whole" THEN To("ended", <<>>, <<Size(buffer)>>, <<>>)
                                          ELSE To("ended", <<>>, got, buffer)
                    [] hand[1] = "raise" -> To("raised", <<hand[2]>>, got, buffer))
            [] OTHER -> UNCHANGED <<mode, phase, hand, got, buffer>> /\ Quiet
Init == /\ buffer = <<>> /\ given = 0 /\ done = "no" /\ mode = "none" /\ phase = "none" /\ wanted = "none" /\ hand = <<>>
        /\ cancelled = FALSE /\ got = <<>> /\ callbacks = <<>> /\ consumers = 0
        /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Next == (\E c \in Chunks : Add(c)) \/ (\E h \in Ends : Settle(h)) \/ (\E k \in Kinds : Callback(k))
          \/ (\E m \in Modes : Start(m)) \/ Ask \/ Leave \/ Cancel \/ Drain
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
Stays == [][done # "no" => done' = done]_<<vars, act>>
NoneLeft == done # "no" => callbacks = <<>>
(* nothing is consumed but what was received, and nothing is left over when it ended *)
Complete == phase = "ended" /\ done = "success" => buffer = <<>>
Sound == Size(got) + Size(buffer) + (IF phase = "waiting" /\ hand # <<>> /\ hand[1] = "chunk" THEN hand[2] ELSE 0)
           <= 4 * given
NeverForgotten == phase = "waiting" /\ hand = <<>> /\ ~cancelled => done = "no" /\ (wanted = "chunks" => buffer = <<>>)
=============================================================================
