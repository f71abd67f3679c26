---- MODULE W01 ----
(*
One side of a WebSocket connection (RFC 6455), the other side being free to send any frames.

Frames: op is the operation code, fin whether it is final, rsv the reserved bits, mask whether it is masked the way it has to
be, n the code of a close frame (-1 if it has no payload, -2 if it has only one byte), d the payload (or the reason of a close
frame). Data is written as pairs of bytes and how many times they follow each other.

w is the state of the side:
    st: "open" or "closing" (a close frame is to be sent or had been sent)
    live: whether it still processes what it receives
    down: whether its transport is gone
    part: the message being received
    inbox: the messages received, but not taken
    recv, pings, blocked, closers: who waits for a message, for a pong, for the end to fail with it, for the end
    got, reason: what the close frame received says
    err: the error of those who receive after the end
    paused, queue: whether writing is paused, what is waiting to be written (the first one is in the buffers already)
    stuck: whether it cannot go on with receiving till its close frame is written
    out: the frames written meanwhile the last action
    fin: the outcomes of the earlier operations which ended meanwhile the last action
*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Role, Frames, Bursts, Ends, Sends, Pings, Pongs, Closes, Ids, MaxSize, MaxInbox, Uses

VARIABLES w, eof, act
vars == <<w, eof, act>>

----
\* Data

RECURSIVE Size(_), Norm(_), Plain(_)
Size(d) == IF d = <<>> THEN 0 ELSE d[1][2] + Size(Tail(d))
Norm(d) == IF Len(d) < 2 THEN d
    ELSE IF d[1][1] = d[2][1] THEN Norm(<<<<d[1][1], d[1][2] + d[2][2]>>>> \o SubSeq(d, 3, Len(d)))
    ELSE <<d[1]>> \o Norm(Tail(d))
\* How many times a single byte character is there is all the same for decoding.
Plain(d) == IF d = <<>> THEN <<>> ELSE [i \in 1 .. (IF d[1][1] < 128 THEN 1 ELSE d[1][2]) |-> d[1][1]] \o Plain(Tail(d))

Units(b) == CASE b < 128 -> 1 [] b \in 194 .. 223 -> 2 [] b \in 224 .. 239 -> 3 [] b \in 240 .. 244 -> 4 [] OTHER -> 0
Follows(b, i, c) == IF i > 2 THEN c \in 128 .. 191
    ELSE c \in (CASE b = 224 -> 160 .. 191 [] b = 237 -> 128 .. 159 [] b = 240 -> 144 .. 191 [] b = 244 -> 128 .. 143 [] OTHER -> 128 .. 191)

\* Whether bytes are valid utf-8, or when whole is not set, whether they can still become that.
RECURSIVE Utf8(_, _)
Utf8(s, whole) == IF s = <<>> THEN TRUE
    ELSE LET n == Units(s[1]) IN
        /\ n > 0
        /\ \A i \in 2 .. n: i <= Len(s) => Follows(s[1], i, s[i])
        /\ IF Len(s) < n THEN ~whole ELSE Utf8(SubSeq(s, n + 1, Len(s)), whole)
Valid(d) == Utf8(Plain(d), TRUE)
Hopeful(d) == Utf8(Plain(d), FALSE)

----
\* Frames

Control(f) == f.op > 7
Payload(f) == IF f.op # 8 THEN Size(f.d) ELSE IF f.n = -1 THEN 0 ELSE IF f.n = -2 THEN 1 ELSE 2 + Size(f.d)
CodeAllowed(n) == n \in {1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 1013} \/ (n >= 3000 /\ n < 5000)
Sent(op, d) == [op |-> op, n |-> 0, d |-> d]

\* The codes with which a frame can be refused.
Refusals(s, f) ==
    LET continued == s.part.d \o f.d
        text == f.op = 1 \/ (f.op = 0 /\ s.part.k = "text")
    IN
    (IF \/ ~f.mask \/ f.rsv # 0 \/ f.op \notin {0, 1, 2, 8, 9, 10}
        \/ (Control(f) /\ (~f.fin \/ Payload(f) > 125))
        \/ (f.op = 0 /\ s.part.k = "none") \/ (f.op \in {1, 2} /\ s.part.k # "none")
        \/ (f.op = 8 /\ (f.n = -2 \/ (f.n >= 0 /\ ~CodeAllowed(f.n))))
        THEN {1002} ELSE {})
    \cup (IF f.op = 8 /\ f.n >= 0 /\ ~Valid(f.d) THEN {1007} ELSE {})
    \cup (IF ~Control(f) /\ Size(continued) > MaxSize THEN {1009} ELSE {})
    \cup (IF text /\ f.fin /\ ~Valid(continued) THEN {1007} ELSE {})
\* Invalid text can be told before it is whole.
Early(s, f) == f.op \in {0, 1} /\ ~f.fin /\ (f.op = 1 \/ s.part.k = "text") /\ ~Hopeful(s.part.d \o f.d)

----
\* Outcomes

O(k, n, d) == [k |-> k, n |-> n, d |-> d]
Standard == <<<<0, 0>>>> \* the usual reason of a code
Done == O("done", 0, <<>>)
Pending == O("pending", 0, <<>>)
Ended == O("ended", 0, <<>>) \* the connection ended meanwhile a ping
Nothing == O("none", 0, <<>>)
Refused == O("error", 0, <<>>)
Code(s) == IF s.got # 0 THEN s.got ELSE 1006
Closed(s) == O("closed", Code(s), IF s.got # 0 THEN s.reason ELSE Standard)

Finish(s, ids, o) == [s EXCEPT !.fin = [id \in Ids |-> IF id \in ids THEN o ELSE s.fin[id]]]
Range(s) == {s[i]: i \in DOMAIN s}
Write(s, f) == [s EXCEPT !.out = Append(s.out, f)]

\* It ends receiving.
End(s, err) ==
    LET first == Finish(s, Range(s.recv), err)
        second == Finish(first, {p[1]: p \in Range(s.pings)}, Ended)
    IN [second EXCEPT !.live = FALSE, !.err = err, !.recv = <<>>, !.pings = <<>>, !.part = [k |-> "none", d |-> <<>>], !.stuck = FALSE]

\* What it ends with because of a failure.
Fail(s, code) ==
    LET closing == s.st # "open"
        wrote == IF closing \/ s.down \/ code = 1006 THEN s ELSE [Write(s, [op |-> 8, n |-> code, d |-> <<>>]) EXCEPT !.st = "closing"]
    IN End(wrote, O("closed", code, Standard))

\* Its transport is gone.
Drop(s) ==
    LET waiting == s.blocked \cup {q.id: q \in {q \in Range(s.queue): q.id \in Ids}}
        first == Finish(s, waiting, Closed(s))
    IN [Finish(first, s.closers, Done) EXCEPT !.down = TRUE, !.blocked = {}, !.closers = {}, !.queue = <<>>]
Drops(s) ==
    IF s.queue # <<>> /\ s.queue[1].id \in Ids
    THEN {Drop(s), Finish(Drop(s), {s.queue[1].id}, Done)} \* it might have been sent
    ELSE {Drop(s)}

\* After it ended, its transport will be gone sooner or later.
Settle(s) == IF s.live \/ s.down THEN {s} ELSE {s} \cup Drops(s)

----
\* Receiving

Deliver(s, k, d) ==
    LET o == O(k, 0, Norm(d)) IN
    IF s.recv = <<>> THEN [s EXCEPT !.inbox = Append(s.inbox, o)]
    ELSE [Finish(s, {s.recv[1]}, o) EXCEPT !.recv = Tail(s.recv)]

DataFrame(s, f) ==
    LET k == IF f.op = 0 THEN s.part.k ELSE IF f.op = 1 THEN "text" ELSE "binary"
        d == s.part.d \o f.d
    IN
    IF f.fin THEN [Deliver(s, k, d) EXCEPT !.part = [k |-> "none", d |-> <<>>]]
    ELSE [s EXCEPT !.part = [k |-> k, d |-> d]]

PingFrame(s, f) == IF s.st = "open" /\ ~s.down THEN Write(s, Sent(10, f.d)) ELSE s

PongFrame(s, f) ==
    LET matching == {i \in DOMAIN s.pings: s.pings[i][2] = f.d} IN
    IF matching = {} THEN s
    ELSE LET last == CHOOSE i \in matching: TRUE
             done == {s.pings[i][1]: i \in 1 .. last}
         IN [Finish(s, done, Done) EXCEPT !.pings = SubSeq(s.pings, last + 1, Len(s.pings))]

CloseFrame(s, f) ==
    LET code == IF f.n = -1 THEN 1005 ELSE f.n
        heard == [s EXCEPT !.got = code, !.reason = IF f.n = -1 THEN Standard ELSE Norm(f.d)]
        answered == s.st = "open" /\ ~s.down
        \* a close frame in the middle of a message leaves it broken
        ends == {Closed(heard)} \cup (IF s.part.k = "none" THEN {} ELSE {O("closed", 1002, Standard)})
        answer == [op |-> 8, n |-> f.n, d |-> Norm(f.d)]
    IN
    IF ~answered THEN {End(heard, err): err \in ends}
    ELSE LET closing == [heard EXCEPT !.st = "closing"] IN
        IF ~s.paused THEN {End(Write(closing, answer), err): err \in ends}
        ELSE IF s.queue = <<>> THEN {[Write(closing, answer) EXCEPT !.stuck = TRUE, !.queue = <<[id |-> "answer", f |-> answer]>>]}
        ELSE {[closing EXCEPT !.stuck = TRUE, !.queue = Append(s.queue, [id |-> "answer", f |-> answer])]}

Apply(s, f) ==
    IF ~s.live \/ s.stuck THEN {s}
    ELSE LET refusals == Refusals(s, f) IN
        IF refusals # {} THEN {Fail(s, code): code \in refusals}
        ELSE IF f.op = 8 THEN CloseFrame(s, f)
        ELSE IF f.op = 9 THEN {PingFrame(s, f)}
        ELSE IF f.op = 10 THEN {PongFrame(s, f)}
        ELSE {DataFrame(s, f)} \cup (IF Early(s, f) THEN {Fail(s, 1007)} ELSE {})

RECURSIVE ApplyAll(_, _)
ApplyAll(ss, fs) == IF fs = <<>> THEN ss ELSE ApplyAll(UNION {Apply(s, fs[1]): s \in ss}, Tail(fs))

----

Fresh(s) == [s EXCEPT !.out = <<>>, !.fin = [id \in Ids |-> Nothing]]
Busy(s) == Range(s.recv) \cup {p[1]: p \in Range(s.pings)} \cup s.blocked \cup s.closers \cup {q.id: q \in Range(s.queue)}
Free == Ids \ Busy(w)
Next1 == CHOOSE id \in Free: TRUE \* one free identifier is as good as any other

Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Become(s) == w' \in Settle(s)

Init ==
    /\ w = [st |-> "open", live |-> TRUE, down |-> FALSE, part |-> [k |-> "none", d |-> <<>>], inbox |-> <<>>, recv |-> <<>>, pings |-> <<>>,
        blocked |-> {}, closers |-> {}, got |-> 0, reason |-> Standard, err |-> Nothing, paused |-> FALSE, queue |-> <<>>, stuck |-> FALSE,
        out |-> <<>>, fin |-> [id \in Ids |-> Nothing]]
    /\ eof = FALSE
    /\ act = [op |-> "init", a |-> <<>>, r |-> Nothing]

\* The other side sends frames, they may arrive together with its end.
Burst(fs, end) ==
    /\ ~eof /\ ~w.down
    /\ Len(w.inbox) + Len(fs) <= MaxInbox + 1
    /\ (w.part.k = "text" /\ ~Hopeful(w.part.d)) => \A i \in DOMAIN fs: fs[i].fin \* going on with it is not of interest
    /\ ~w.live => Len(fs) <= 1 /\ ("cancel" \in Uses \/ \A i \in DOMAIN fs: fs[1].op = 1)
    /\ w.paused => \A i \in DOMAIN fs: fs[i].op # 9 /\ end # "eof"
    /\ eof' = (end # "-")
    /\ LET start == Fresh(w)
           gone == [start EXCEPT !.down = TRUE]
           \* when nothing can be sent after the end of the other side, it is gone with it
           starts == CASE end \in {"lost", "reset"} -> {gone} [] end = "eof" -> {start, gone} [] OTHER -> {start}
           \* what was not processed yet is lost when the connection is reset
           lengths == IF end = "reset" THEN 0 .. Len(fs) ELSE {Len(fs)}
       IN \E s \in UNION {ApplyAll(starts, SubSeq(fs, 1, n)): n \in lengths}:
            LET ended == IF end = "-" \/ ~s.live THEN s
                         ELSE IF s.stuck THEN (IF s.down THEN End(s, Closed(s)) ELSE s)
                         ELSE Fail(s, 1006) IN
            IF ended.down THEN w' \in Drops(ended) ELSE Become(ended)
    /\ Did("burst", <<fs, end>>, Nothing)

Receive ==
    /\ "receive" \in Uses /\ Free # {} /\ Len(w.recv) < 2
    /\ LET s == Fresh(w) IN
        IF s.inbox # <<>> THEN Become([s EXCEPT !.inbox = Tail(s.inbox)]) /\ Did("receive", <<Next1>>, s.inbox[1])
        ELSE IF ~s.live THEN Become(s) /\ Did("receive", <<Next1>>, s.err)
        ELSE Become([s EXCEPT !.recv = Append(s.recv, Next1)]) /\ Did("receive", <<Next1>>, Pending)

ReceiveNoWait ==
    /\ "receive" \in Uses /\ w.recv = <<>>
    /\ LET s == Fresh(w) IN
        IF s.inbox # <<>> THEN Become([s EXCEPT !.inbox = Tail(s.inbox)]) /\ Did("receive_no_wait", <<>>, s.inbox[1])
        ELSE Become(s) /\ Did("receive_no_wait", <<>>, IF s.live THEN Refused ELSE s.err)

\* Sending when it is not open anymore fails as soon as it is known with what.
Fails(s, op, args) ==
    IF s.down \/ (s.got # 0 /\ s.st = "closing") THEN Become(s) /\ Did(op, args, Closed(s))
    ELSE Become([s EXCEPT !.blocked = s.blocked \cup {args[1]}]) /\ Did(op, args, Pending)

IsOpen == w.st = "open" /\ w.live /\ ~w.down

Send(k, d) ==
    /\ Free # {}
    /\ LET s == Fresh(w)
           f == Sent(IF k = "text" THEN 1 ELSE 2, d)
           args == <<Next1, k, d>>
       IN
        IF ~IsOpen THEN Fails(s, "send", args)
        ELSE IF ~s.paused THEN Become(Write(s, f)) /\ Did("send", args, Done)
        ELSE IF s.queue = <<>> THEN Become([Write(s, f) EXCEPT !.queue = <<[id |-> Next1, f |-> f]>>]) /\ Did("send", args, Pending)
        ELSE Become([s EXCEPT !.queue = Append(s.queue, [id |-> Next1, f |-> f])]) /\ Did("send", args, Pending)

Ping(d) ==
    /\ Free # {} /\ ~w.paused
    /\ \A i \in DOMAIN w.pings: w.pings[i][2] # d
    /\ LET s == Fresh(w)
           args == <<Next1, d>>
       IN
        IF ~IsOpen THEN Fails(s, "ping", args)
        ELSE IF Size(d) > 125 THEN Become(s) /\ Did("ping", args, Refused)
        ELSE Become([Write(s, Sent(9, d)) EXCEPT !.pings = Append(s.pings, <<Next1, d>>)]) /\ Did("ping", args, Pending)

Pong(d) ==
    /\ Free # {} /\ ~w.paused
    /\ LET s == Fresh(w)
           args == <<Next1, d>>
       IN
        IF ~IsOpen THEN Fails(s, "pong", args)
        ELSE IF Size(d) > 125 THEN Become(s) /\ Did("pong", args, Refused)
        ELSE Become(Write(s, Sent(10, d))) /\ Did("pong", args, Done)

Close(code, reason) ==
    /\ Free # {} /\ Cardinality(w.closers) < 2
    /\ LET s == Fresh(w)
           args == <<Next1, code, reason>>
           f == [op |-> 8, n |-> code, d |-> reason]
           waits == [s EXCEPT !.closers = s.closers \cup {Next1}]
           closing == [waits EXCEPT !.st = "closing"]
       IN
        IF ~CodeAllowed(code) \/ Size(reason) > 123 THEN Become(s) /\ Did("close", args, Refused)
        ELSE IF s.down THEN Become(s) /\ Did("close", args, Done)
        ELSE /\ Did("close", args, Pending)
             /\ IF s.st = "closing" THEN Become(waits)
                ELSE IF ~s.live THEN (Become(closing) \/ (~s.paused /\ Become(Write(closing, f))))
                ELSE IF ~s.paused THEN Become(Write(closing, f))
                ELSE IF s.queue = <<>> THEN Become([Write(closing, f) EXCEPT !.queue = <<[id |-> "close", f |-> f]>>])
                ELSE Become([closing EXCEPT !.queue = Append(s.queue, [id |-> "close", f |-> f])])

Pause ==
    /\ "pause" \in Uses /\ ~w.paused /\ IsOpen
    /\ Become([Fresh(w) EXCEPT !.paused = TRUE])
    /\ Did("pause", <<>>, Nothing)

\* What was waiting is written in order, but nothing after a close frame. When it is closing those waiting may be refused.
RECURSIVE Flush(_)
Flush(s) ==
    IF s.queue = <<>> THEN {s}
    ELSE LET q == s.queue[1]
             rest == [s EXCEPT !.queue = Tail(s.queue)]
             sent == IF q.id \in Ids THEN Finish(Write(rest, q.f), {q.id}, Done) ELSE Write(rest, q.f)
             failed == IF s.got # 0 THEN Finish(rest, {q.id}, Closed(s)) ELSE [rest EXCEPT !.blocked = s.blocked \cup {q.id}]
         IN
         IF q.id \notin Ids THEN IF s.live THEN Flush(sent) ELSE Flush(sent) \cup Flush(rest)
         ELSE IF s.st = "open" /\ s.live THEN Flush(sent)
         ELSE IF s.st = "closing" /\ \A i \in DOMAIN s.queue: s.queue[i].f.op # 8 THEN Flush(failed) \* a close frame is already sent
         ELSE Flush(sent) \cup Flush(failed)

Resume ==
    /\ w.paused /\ ~w.down
    /\ LET s == [Fresh(w) EXCEPT !.paused = FALSE]
           first == IF s.queue = <<>> THEN s
                    ELSE [Finish(s, {s.queue[1].id} \cap Ids, Done) EXCEPT !.queue = Tail(s.queue)]
       IN \E flushed \in Flush(first):
            IF ~flushed.stuck THEN Become(flushed)
            ELSE \E err \in {Closed(flushed)}: Become(End(flushed, err))
    /\ Did("resume", <<>>, Nothing)

\* The next one gets its turn, but when it is not open it might be refused.
RECURSIVE Turn(_)
Turn(s) ==
    IF s.queue = <<>> THEN {s}
    ELSE LET q == s.queue[1]
             rest == [s EXCEPT !.queue = Tail(s.queue)]
             sent == Write(s, q.f)
             failed == IF s.got # 0 THEN Finish(rest, {q.id}, Closed(s)) ELSE [rest EXCEPT !.blocked = s.blocked \cup {q.id}]
         IN
         IF q.id \notin Ids THEN IF s.live THEN {sent} ELSE {sent} \cup Turn(rest)
         ELSE IF s.st = "open" /\ s.live THEN {sent}
         ELSE IF s.st = "closing" /\ \A i \in DOMAIN s.queue: s.queue[i].f.op # 8 THEN Turn(failed)
         ELSE {sent} \cup Turn(failed)

Without(q, id) == SelectSeq(q, LAMBDA e: e # id)
Cancelled == O("cancelled", 0, <<>>)
Cancel(id) ==
    /\ "cancel" \in Uses /\ id \in Busy(w)
    /\ LET s == Finish(Fresh(w), {id}, Cancelled)
           place == {i \in DOMAIN s.queue: s.queue[i].id = id}
           rest == SelectSeq(s.queue, LAMBDA q: q.id # id)
           left == [s EXCEPT !.closers = s.closers \ {id}]
       IN
        IF id \in Range(s.recv) THEN Become([s EXCEPT !.recv = Without(s.recv, id)])
        ELSE IF id \in s.blocked THEN Become([s EXCEPT !.blocked = s.blocked \ {id}])
        ELSE IF id \in {p[1]: p \in Range(s.pings)} THEN \* its pong can still tell of the others
            Become([s EXCEPT !.pings = [i \in DOMAIN s.pings |-> IF s.pings[i][1] = id THEN <<"-", s.pings[i][2]>> ELSE s.pings[i]]])
        ELSE IF id \in s.closers THEN \* it can end the connection without waiting for the other side
            \/ Become(left)
            \/ s.live /\ Become(IF s.got # 0 THEN End(left, Closed(left)) ELSE Fail(left, 1006))
        ELSE IF place # {1} \/ rest = <<>> THEN Become([s EXCEPT !.queue = rest])
        ELSE \E turned \in Turn([s EXCEPT !.queue = rest]): Become(turned)
    /\ Did("cancel", <<id>>, Nothing)

\* A long time passes. If it is ending, it ends.
Expire ==
    /\ "expire" \in Uses
    /\ LET s == Fresh(w)
           ending == ~s.live \/ s.closers # {}
           dead == IF s.live THEN Fail(s, 1006) ELSE s
           other == End(s, Closed(s))
       IN
        IF s.down \/ ~ending THEN Become(s)
        ELSE \/ w' \in Drops(dead)
             \/ s.live /\ s.got # 0 /\ w' \in Drops(other)
    /\ Did("expire", <<>>, Nothing)

Next ==
    /\ \/ \E fs \in Bursts, end \in Ends: Burst(fs, end)
       \/ \E f \in Frames: Burst(<<f>>, "-")
       \/ /\ UNCHANGED eof
          /\ \/ \E id \in Ids: Cancel(id)
             \/ Receive \/ ReceiveNoWait \/ Pause \/ Resume \/ Expire
             \/ \E m \in Sends: Send(m[1], m[2])
             \/ \E d \in Pings: Ping(d)
             \/ \E d \in Pongs: Pong(d)
             \/ \E c \in Closes: Close(c[1], c[2])

Spec == Init /\ [][Next]_vars

----
\* What is told of it outside.
State == IF w.down THEN "closed" ELSE IF IsOpen THEN "open" ELSE "closing"
Ob == [
    state |-> State,
    code |-> IF w.got # 0 THEN w.got ELSE IF w.down THEN 1006 ELSE 0
]
St == [w |-> Fresh(w), eof |-> eof]
View == St
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> [op |-> act'.op, a |-> act'.a, r |-> [r |-> act'.r, out |-> w'.out, fin |-> w'.fin]], t |-> St', o |-> Ob']))

----
TypeOK ==
    /\ w.st \in {"open", "closing"}
    /\ w.inbox # <<>> => w.recv = <<>>
    /\ ~w.live => (w.recv = <<>> /\ w.pings = <<>>)
    /\ w.down => (~w.live /\ w.blocked = {} /\ w.closers = {})
CloseIsLast == \A i \in DOMAIN w.out: w.out[i].op = 8 => i = Len(w.out) /\ w.st = "closing"
OpenTellsNothing == IsOpen => w.got = 0
Texts == \A i \in DOMAIN w.inbox: w.inbox[i].k = "text" => Valid(w.inbox[i].d)
Forward == [][
    /\ (w.st = "closing" => w'.st = "closing") /\ (w.down => w'.down) /\ (~w.live => ~w'.live)
    /\ (w.got # 0 => w'.got = w.got)
]_vars
Silence == [][(w.st = "closing" /\ w.queue = <<>>) => w'.out = <<>>]_vars
Order == [][LET n == IF w.inbox # <<>> /\ act'.op \in {"receive", "receive_no_wait"} THEN 1 ELSE 0 IN
    SubSeq(w.inbox, 1 + n, Len(w.inbox)) = SubSeq(w'.inbox, 1, Len(w.inbox) - n)]_vars
====
