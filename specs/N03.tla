-------------------------------- MODULE N03 --------------------------------
(* A transport between a protocol and a socket or a pipe. Amounts are counted in units.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind,         \* "socket", "write pipe"
          Sizes,        \* of what is written
          Rooms,        \* how much the socket can take at once
          MaxSize,      \* of what is waiting to be written
          High, Low,
          Reads,        \* what can be read
          Ops,          \* operations
          Reacts        \* what the protocol does: <<when, what>>
VARIABLES z, act
vars == z
St == z
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE s[1] + Size(Tail(s))
Min(a, b) == IF a < b THEN a ELSE b
Ob == [reading |-> z.reads, writing |-> z.buffer # <<>>, closing |-> z.closing, size |-> Size(z.buffer),
       shut |-> z.shut, closed |-> z.lost = "done"]
(* z.lost: "no", "none" or "error" - what the protocol will be told -, "done" *)
Empty == [made |-> FALSE, buffer |-> <<>>, room |-> 0, eof |-> FALSE, shut |-> FALSE, closing |-> FALSE, lost |-> "no",
          reads |-> FALSE, paused |-> FALSE, stopped |-> FALSE, broken |-> FALSE, kept |-> FALSE, log |-> <<>>, sent |-> 0]
Log(y, what) == [y EXCEPT !.log = Append(@, what)]
Force(y, how) == IF y.lost # "no" THEN y
                 ELSE [y EXCEPT !.buffer = <<>>, !.closing = TRUE, !.reads = FALSE, !.lost = how]
(* pipes end together with their writing *)
Close(y) == IF y.closing THEN y
            ELSE [y EXCEPT !.closing = TRUE, !.reads = IF Kind = "socket" \/ y.buffer = <<>> THEN FALSE ELSE @,
                           !.lost = IF y.buffer = <<>> THEN "none" ELSE @]
WriteEof(y) == IF Kind # "socket" THEN Close(y)
               ELSE IF y.closing \/ y.eof THEN y
               ELSE [y EXCEPT !.eof = TRUE, !.shut = y.buffer = <<>>]
Pause(y) == IF y.closing \/ y.paused THEN y ELSE [y EXCEPT !.paused = TRUE, !.reads = FALSE]
Resume(y) == IF ~y.paused THEN y ELSE [y EXCEPT !.paused = FALSE, !.reads = ~y.closing]
RECURSIVE Drop(_, _)
Drop(s, n) == IF s = <<>> THEN <<>> ELSE IF n >= s[1] THEN Drop(Tail(s), n - s[1]) ELSE <<s[1] - n>> \o Tail(s)
(* `React` is where the protocol is told about something; what it does may tell it about something else, but not about the
   same thing again *)
RECURSIVE React(_, _), Write(_, _), Does(_, _)
Does(y, what) == CASE what = "close" -> Close(y)
                   [] what = "abort" -> Force(y, "none")
                   [] what = "pause" -> Pause(y)
                   [] what = "eof" -> WriteEof(y)
                   [] what = "write" -> IF y.eof THEN y ELSE Write(y, 1)
                   [] what = "write much" -> IF y.eof THEN y ELSE Write(y, High + 1)
                   [] OTHER -> y
React(y, when) ==
  LET told == Log(y, when)
      whats == {r[2] : r \in {r \in Reacts : r[1] = when}}
  IN IF whats = {} THEN told ELSE Does(told, CHOOSE w \in whats : TRUE)
Write(y, n) ==
  IF n = 0 \/ y.lost # "no" \/ (Kind # "socket" /\ y.closing) THEN y
  ELSE IF y.buffer = <<>> /\ y.broken THEN Force(y, "error")
  ELSE LET s == IF y.buffer = <<>> THEN Min(n, y.room) ELSE 0
           x == [y EXCEPT !.room = @ - s, !.sent = @ + s]
       IN IF s = n THEN x
          ELSE LET w == [x EXCEPT !.buffer = Append(@, n - s)]
               IN IF Size(w.buffer) > High /\ ~w.stopped THEN React([w EXCEPT !.stopped = TRUE], "stop writing") ELSE w
Lose(y) == LET x == React([y EXCEPT !.lost = "done"], IF y.lost = "error" THEN "lost error" ELSE "lost none") IN [x EXCEPT !.buffer = <<>>, !.reads = FALSE]
(* the socket became writable *)
Writable(y) ==
  IF y.buffer = <<>> \/ y.lost # "no" THEN y
  ELSE IF y.broken THEN Force(y, "error")
  ELSE LET s == Min(Size(y.buffer), y.room)
           x == [y EXCEPT !.buffer = Drop(@, s), !.room = @ - s, !.sent = @ + s]
           w == IF s > 0 /\ x.stopped /\ Size(x.buffer) <= Low THEN React([x EXCEPT !.stopped = FALSE], "write again") ELSE x
       IN IF s > 0 /\ w.buffer = <<>>
          THEN IF w.closing THEN Lose([w EXCEPT !.lost = IF @ = "no" THEN "none" ELSE @])
               ELSE IF w.eof /\ ~w.shut THEN [w EXCEPT !.shut = TRUE] ELSE w
          ELSE w
Readable(y, what) ==
  IF ~y.reads \/ y.lost # "no" THEN y
  ELSE IF Kind # "socket" THEN Force(y, IF y.buffer = <<>> THEN "none" ELSE "error")
  ELSE CASE what = "data" -> React(y, "data")
         [] what = "eof" -> LET x == React(y, "end")
                            IN IF <<"end", "keep">> \in Reacts THEN [x EXCEPT !.reads = FALSE, !.kept = TRUE] ELSE Close(x)
         [] what = "error" -> Force(y, "error")
         [] OTHER -> y
(* a cycle of the loop: what was scheduled first, then the events *)
Scheduled(y) ==
  LET x == IF ~y.made
           THEN LET m == React([y EXCEPT !.made = TRUE], "made") IN [m EXCEPT !.reads = ~m.closing /\ ~m.paused]
           ELSE y
  IN IF x.lost \in {"none", "error"} /\ (y.made \/ y.lost # "no") THEN Lose(x) ELSE x
Later(y) == IF y.lost \in {"none", "error"} THEN Lose(y) ELSE y
Cycle(y, r, room, spurious) ==
  LET x == [y EXCEPT !.room = IF y.room + room > 0 THEN y.room + room ELSE 0]
      w == Later(Scheduled(x))
      \* no event is there for what was not registered before
      v == IF r # "no" /\ y.reads THEN Readable(w, r) ELSE w
      u == IF (w.room > 0 \/ spurious \/ y.broken) /\ y.buffer # <<>> THEN Writable(v) ELSE v
  IN Later(u)
Go(y, op, a, r) == /\ z' = [y EXCEPT !.log = <<>>, !.sent = 0] /\ Did(op, a, [log |-> y.log, sent |-> y.sent, r |-> r])
Has(op) == op \in Ops
Next ==
  \/ /\ Has("write") /\ z.made /\ \E n \in Sizes : Size(z.buffer) + n <= MaxSize
        /\ IF Kind = "socket" /\ z.eof THEN Go(z, "write", <<n>>, "refused") ELSE Go(Write(z, n), "write", <<n>>, "-")
  \/ /\ Has("eof") /\ z.made /\ Go(WriteEof(z), "write_eof", <<>>, "-")
  \/ /\ Has("close") /\ (z.made \/ Kind = "socket") /\ Go(Close(z), "close", <<>>, "-")
  \/ /\ Has("abort") /\ (z.made \/ Kind = "socket") /\ \E how \in {"none", "error"} : Go(Force(z, how), "abort", <<how>>, "-")
  \/ /\ Has("pause") /\ z.made /\ ~z.kept /\ Go(Pause(z), "pause", <<>>, ~(z.closing \/ z.paused))
  \/ /\ Has("resume") /\ z.made /\ ~z.kept /\ Go(Resume(z), "resume", <<>>, z.paused)
  \/ /\ Has("break") /\ z.made /\ ~z.broken /\ z.lost = "no" /\ Go([z EXCEPT !.broken = TRUE], "break", <<>>, "-")
  \/ \E r \in Reads \cup {"no"}, m \in Rooms \cup {0} :
        /\ z.room = 0 \/ m = 0
        /\ r = "error" => z.reads
        /\ r \in {"data", "eof"} => Size(z.buffer) < MaxSize
        /\ Go(Cycle(z, r, m, FALSE), "cycle", <<r, m, FALSE>>, "-")
  \/ /\ z.buffer # <<>> /\ z.room = 0 /\ Go(Cycle(z, "no", 0, TRUE), "cycle", <<"no", 0, TRUE>>, "-")
Init == z = Empty /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Spec == Init /\ [][Next]_<<z, act>>
View == z
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the property *)
Count(log, what) == Cardinality({i \in 1..Len(log) : log[i] = what})
Lost(log) == Count(log, "lost none") + Count(log, "lost error")
LostOnce == [][act'.op # "init" => Lost(act'.r.log) = (IF z.lost # "done" /\ z'.lost = "done" THEN 1 ELSE 0)]_<<z, act>>
NothingAfter == [][z.lost = "done" => act'.r.log = <<>> /\ act'.r.sent = 0]_<<z, act>>
MadeFirst == [][act'.r.log # <<>> /\ ~z.made => act'.r.log[1] = "made"]_<<z, act>>
(* pausing and resuming alternate, and follow the limits *)
Alternates == [][/\ Count(act'.r.log, "stop writing") - Count(act'.r.log, "write again")
                      = (IF z'.stopped THEN 1 ELSE 0) - (IF z.stopped THEN 1 ELSE 0)]_<<z, act>>
Limits == z.lost = "no" => (Size(z.buffer) > High => z.stopped)
(* nothing waits with nothing to wake it *)
Alive == /\ z.closing => ~z.reads \/ Kind # "socket"
         /\ z.closing /\ z.buffer = <<>> => z.lost # "no"
         /\ z.eof /\ z.buffer = <<>> /\ z.lost = "no" => z.shut
         /\ z.shut => z.buffer = <<>>
         /\ z.made /\ ~z.closing /\ ~z.paused /\ ~z.kept => z.reads
Flushed == [][act'.op \in {"write", "cycle"} /\ z'.lost = "no" =>
                Size(z'.buffer) <= Size(z.buffer)
                  + (IF act'.op = "write" THEN act'.a[1] ELSE 0) + (2 * High + 4) ]_<<z, act>>
=============================================================================
