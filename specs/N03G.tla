-------------------------------- MODULE N03G -------------------------------
(* A datagram transport. A datagram is known by the address it is sent to.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Addresses, MaxBuffer, High, Low, Ops, React
VARIABLES z, act
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Ob == [reading |-> z.reads, writing |-> z.buffer # <<>>, closing |-> z.closing, size |-> Len(z.buffer), closed |-> z.lost = "done"]
Empty == [made |-> FALSE, buffer |-> <<>>, closing |-> FALSE, lost |-> "no", reads |-> FALSE, stopped |-> FALSE,
          log |-> <<>>, sent |-> <<>>]
Log(y, what) == [y EXCEPT !.log = Append(@, what)]
Force(y, how) == IF y.lost # "no" THEN y
                 ELSE [y EXCEPT !.buffer = <<>>, !.closing = TRUE, !.reads = FALSE, !.lost = how]
Close(y) == IF y.closing THEN y
            ELSE [y EXCEPT !.closing = TRUE, !.reads = FALSE, !.lost = IF y.buffer = <<>> THEN "none" ELSE @]
Does(y, when) == LET told == Log(y, when)
                 IN IF React = <<when, "close">> THEN Close(told) ELSE IF React = <<when, "abort">> THEN Force(told, "none") ELSE told
Lose(y) == Does([y EXCEPT !.lost = "done"], IF y.lost = "error" THEN "lost error" ELSE "lost none")
(* how: what the socket does with a datagram - "takes", "blocks", "fails" *)
Send(y, a, how) ==
  IF y.lost # "no" THEN y
  ELSE IF y.buffer = <<>> /\ how = "takes" THEN [y EXCEPT !.sent = Append(@, a)]
  ELSE IF y.buffer = <<>> /\ how = "fails" THEN Does(y, "failed")
  ELSE LET w == [y EXCEPT !.buffer = Append(@, a)]
       IN IF Len(w.buffer) > High /\ ~w.stopped THEN Does([w EXCEPT !.stopped = TRUE], "stop writing") ELSE w
Later(y) == IF y.lost \in {"none", "error"} THEN Lose(y) ELSE y
(* the socket takes so many *)
Writable(y, n, fails) ==
  LET k == IF n < Len(y.buffer) THEN n ELSE Len(y.buffer)
      x == [y EXCEPT !.sent = @ \o SubSeq(y.buffer, 1, k), !.buffer = SubSeq(@, k + 1, Len(@))]
  IN IF y.lost # "no" THEN y
     ELSE IF x.buffer # <<>> /\ fails
     THEN Does([x EXCEPT !.buffer = Tail(@)], "failed")
     ELSE LET w == IF x.stopped /\ Len(x.buffer) <= Low THEN Does([x EXCEPT !.stopped = FALSE], "write again") ELSE x
          IN IF w.buffer = <<>> /\ w.closing /\ w.lost # "done" THEN Lose([w EXCEPT !.lost = "none"]) ELSE w
Readable(y, r) == IF ~y.reads THEN y
                  ELSE IF r = "blocked" THEN y ELSE IF r = "error" THEN Does(y, "failed") ELSE Does(y, r)
Cycle(y, r, n, fails) ==
  LET m == IF ~y.made THEN LET m == Does([y EXCEPT !.made = TRUE], "made") IN [m EXCEPT !.reads = ~m.closing] ELSE y
      l == IF y.lost \in {"none", "error"} THEN Lose(m) ELSE m
      v == IF r # "no" /\ y.reads THEN Readable(l, r) ELSE l
      u == IF n >= 0 /\ y.buffer # <<>> /\ v.buffer # <<>> THEN Writable(v, n, fails) ELSE v
      \* when sending the last one failed, what has to be done when nothing is left is done in the next cycle
  IN Later(u)
Go(y, op, a) == z' = [y EXCEPT !.log = <<>>, !.sent = <<>>] /\ Did(op, a, [log |-> y.log, sent |-> y.sent])
St == z
Next ==
  \/ z.made /\ \E a \in Addresses, how \in {"takes", "blocks", "fails"} :
        /\ Len(z.buffer) < MaxBuffer /\ (z.buffer # <<>> => how = "blocks") /\ Go(Send(z, a, how), "send", <<a, how>>)
  \/ "close" \in Ops /\ Go(Close(z), "close", <<>>)
  \/ "abort" \in Ops /\ \E how \in {"none", "error"} : Go(Force(z, how), "abort", <<how>>)
  \/ \E r \in {"no", "blocked", "error"} \cup Addresses : Go(Cycle(z, r, -1, FALSE), "cycle", <<r, -1, FALSE>>)
  \/ /\ z.buffer # <<>> /\ \E n \in 0..2, fails \in BOOLEAN, r \in {"no", "a"} :
        \* the rest is left alone unless sending the last one fails
        /\ n + 1 = Len(z.buffer) => ~fails
        /\ Go(Cycle(z, r, n, fails), "cycle", <<r, n, fails>>)
Init == z = Empty /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Spec == Init /\ [][Next]_<<z, act>>
View == z
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
Count(log, what) == Cardinality({i \in 1..Len(log) : log[i] = what})
LostOnce == [][Count(act'.r.log, "lost none") + Count(act'.r.log, "lost error")
                 = (IF z.lost # "done" /\ z'.lost = "done" THEN 1 ELSE 0)]_<<z, act>>
NothingAfter == [][z.lost = "done" => act'.r.log = <<>> /\ act'.r.sent = <<>>]_<<z, act>>
Alternates == [][Count(act'.r.log, "stop writing") - Count(act'.r.log, "write again")
                   = (IF z'.stopped THEN 1 ELSE 0) - (IF z.stopped THEN 1 ELSE 0)]_<<z, act>>
InOrder == [][z.lost = "no" /\ z'.lost = "no" /\ Count(act'.r.log, "failed") = 0 =>
                z.buffer \o (IF act'.op = "send" THEN <<act'.a[1]>> ELSE <<>>) = act'.r.sent \o z'.buffer]_<<z, act>>
Alive == z.closing /\ z.buffer = <<>> => z.lost # "no"
=============================================================================
