-------------------------------- MODULE N01 --------------------------------
(* Reading from a stream: what was received and not read yet, and the reader which waits for more of it.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pieces,       \* which can be received
          MaxSize,      \* of what is received and not returned yet
          Exact,        \* sizes to read
          Boundaries,   \* to read until
          Limit,        \* reading of the transport is paused over it
          Ends          \* how the stream can end
VARIABLES pieces,       \* received, not read yet
          cut,          \* whether a part of the first piece was read already
          reader,       \* which waits: <<kind, argument>>, or <<>>
          got,          \* pieces the reader already took
          eof, failed,
          paused, act
vars == <<pieces, cut, reader, got, eof, failed, paused>>
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
St == [pieces |-> pieces, cut |-> cut, reader |-> reader, got |-> got, eof |-> eof, failed |-> failed, paused |-> paused]
Ob == [waits |-> reader # <<>>, at_eof |-> eof /\ pieces = <<>>, size |-> Len(Flat(pieces)), paused |-> paused]
(* pieces without the first n bytes *)
RECURSIVE Drop(_, _)
Drop(s, n) == IF n = 0 THEN <<s, FALSE>>
              ELSE IF Len(s[1]) <= n THEN LET d == Drop(Tail(s), n - Len(s[1])) IN d
              ELSE << <<SubSeq(s[1], n + 1, Len(s[1]))>> \o Tail(s), TRUE>>
(* where the first occurrence of the boundary starts, 0 if nowhere *)
Find(s, b) == LET at == {i \in 1..(Len(s) - Len(b) + 1) : SubSeq(s, i, i + Len(b) - 1) = b}
              IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
(* What reading ends with if this was received: <<returned, amount consumed>>, <<>> if more has to be received.      *)
Ready(kind, x, s, ended) ==
  LET f == Flat(s)
  IN CASE kind = "all" -> IF ended THEN <<f, Len(f)>> ELSE <<>>
       [] kind = "exactly" -> IF Len(f) >= x THEN <<SubSeq(f, 1, x), x>> ELSE <<>>
       [] kind = "read" -> IF Len(f) >= x THEN <<SubSeq(f, 1, x), x>> ELSE IF ended THEN <<f, Len(f)>> ELSE <<>>
       [] kind = "until" -> LET i == Find(f, x)
                            IN IF i > 0 THEN <<SubSeq(f, 1, i - 1), i + Len(x) - 1>> ELSE <<>>
       [] kind = "once" -> IF s # <<>> THEN <<s[1], Len(s[1])>> ELSE IF ended THEN << <<>>, 0>> ELSE <<>>
(* A reader is started, or it receives more. `old` is what it already took, `new` what it did not yet.               *)
Reading(kind, x, s, ended, op, a) ==
  LET done == Ready(kind, x, s, ended)
  IN IF failed
     THEN /\ Did(op, a, <<"error", "e1">>) /\ UNCHANGED <<pieces, cut, reader, got, paused>>
     ELSE IF done # <<>>
     THEN LET d == Drop(s, done[2])
          IN /\ Did(op, a, <<"returns", done[1]>>) /\ reader' = <<>> /\ got' = <<>>
             /\ pieces' = d[1] /\ cut' = (d[2] \/ (done[2] = 0 /\ cut))
             /\ paused' = (paused \/ (op # "read" /\ Len(Flat(d[1])) > Limit))
     ELSE IF ended \* what was read is gone
     THEN /\ Did(op, a, <<"error", "connection">>) /\ reader' = <<>> /\ got' = <<>> /\ pieces' = <<>> /\ cut' = FALSE
          /\ UNCHANGED paused
     ELSE /\ Did(op, a, <<"waits">>) /\ reader' = <<kind, x>> /\ got' = s /\ pieces' = <<>> /\ cut' = FALSE
          /\ paused' = FALSE
Read(kind, x) == /\ reader = <<>> /\ Reading(kind, x, pieces, eof, "read", <<kind, x>>) /\ UNCHANGED <<eof, failed>>
Receive(p) ==
  /\ ~eof /\ ~failed /\ Len(Flat(pieces)) + Len(Flat(got)) + Len(p) <= MaxSize
  /\ UNCHANGED <<eof, failed>>
  /\ IF reader # <<>>
     THEN Reading(reader[1], reader[2], Append(got, p), FALSE, "receive", <<p>>)
     ELSE /\ pieces' = Append(pieces, p) /\ paused' = (paused \/ Len(Flat(pieces')) > Limit)
          /\ Did("receive", <<p>>, <<"none">>) /\ UNCHANGED <<cut, reader, got>>
End(how) ==
  /\ ~eof /\ ~failed /\ eof' = TRUE /\ UNCHANGED failed
  /\ IF reader # <<>> THEN Reading(reader[1], reader[2], got, TRUE, "end", <<how>>)
     ELSE Did("end", <<how>>, <<"none">>) /\ UNCHANGED <<pieces, cut, reader, got, paused>>
Fail(how) ==
  /\ ~failed /\ failed' = TRUE /\ UNCHANGED <<eof, pieces, cut, paused>> /\ reader' = <<>> /\ got' = <<>>
  /\ Did("fail", <<how>>, IF reader # <<>> THEN <<"error", "e1">> ELSE <<"none">>)
(* what the reader took so far is gone *)
Cancel == /\ reader # <<>> /\ reader' = <<>> /\ got' = <<>> /\ UNCHANGED <<pieces, cut, eof, failed, paused>>
          /\ Did("cancel", <<>>, <<"error", "connection">>)
Init == /\ pieces = <<>> /\ cut = FALSE /\ reader = <<>> /\ got = <<>> /\ eof = FALSE /\ failed = FALSE /\ paused = FALSE
        /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Next == \/ \E k \in {"all", "once"} : Read(k, <<>>)
        \/ \E k \in {"exactly", "read"} : \E n \in Exact : Read(k, n)
        \/ \E b \in Boundaries : Read("until", b)
        \/ \E p \in Pieces : Receive(p)
        \/ \E h \in Ends : IF h[1] = "end" THEN End(h[2]) ELSE IF h[1] = "fail" THEN Fail(h[2]) ELSE Cancel
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
NeverStuck == reader # <<>> => ~paused /\ pieces = <<>> /\ ~eof /\ ~failed
(* nothing is lost, repeated or moved, whatever the pieces are *)
Before == Flat(got) \o Flat(pieces)
After == Flat(got') \o Flat(pieces')
Returned == act'.op # "init" /\ act'.r[1] = "returns"
New == IF act'.op = "receive" THEN act'.a[1] ELSE <<>>
Separator == LET r == IF act'.op = "read" THEN act'.a ELSE reader IN IF r[1] = "until" THEN r[2] ELSE <<>>
Whole == [][IF Returned THEN Before \o New = act'.r[2] \o Separator \o After
            ELSE IF act'.op \in {"receive", "read", "end"} /\ act'.r[1] \in {"none", "waits"} THEN Before \o New = After
            ELSE TRUE]_<<vars, act>>
(* and the boundary is the first one *)
First == [][Returned /\ Separator # <<>> =>
              \A i \in 1..Len(act'.r[2]) : SubSeq(act'.r[2] \o Separator, i, i + Len(Separator) - 1) # Separator]_<<vars, act>>
(* a waiting reader waits only for what was not received *)
WaitsOnlyIfNeeded == reader # <<>> =>
  CASE reader[1] \in {"exactly", "read"} -> Len(Flat(got)) < reader[2]
    [] reader[1] = "until" -> Find(Flat(got), reader[2]) = 0
    [] reader[1] = "once" -> got = <<>>
    [] OTHER -> TRUE
=============================================================================
