-------------------------------- MODULE H02 --------------------------------
(* The connections of a http client: two users of it do requests, servers respond, time passes.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Slots, MaxConns, MaxRequests, Infos, MaxTime, Uploads, Force, Endings, Extras
VARIABLES conns,    \* every connection ever made; the key, whether it is in use / idle / closed / detached, till when an idle
                    \* one may be used, how many requests were responded on it, whether it is unhealthy
          slots,    \* the users: what they wait for, on which connection, what their response said about keeping it alive
          now, requests, closed, act
vars == <<conns, slots, now, requests, closed>>
St == [c |-> conns, s |-> slots, t |-> now, r |-> requests, x |-> closed]
Idle == [p |-> "none", c |-> 0, k |-> "", i |-> "", u |-> FALSE]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Numbers == 1..Len(conns)
Ob == [open |-> [c \in Numbers |-> conns[c].s # "closed"], users |-> [s \in Slots |-> slots[s].p]]

Life(info) == CASE info = "short" -> 1 [] info \in {"long", "max"} -> 3 [] OTHER -> 1000
Limit(info) == IF info = "max" THEN 2 ELSE 1000
(* what happens to a connection when its response ended *)
Ended(c, info, unfit) ==
  IF unfit \/ Force \/ closed \/ info \in {"close", "old"} \/ c.n + 1 >= Limit(info)
  THEN [c EXCEPT !.s = "closed"]
  ELSE [c EXCEPT !.s = "idle", !.n = @ + 1, !.e = now + Life(info)]
Usable(k) == {c \in Numbers : conns[c].k = k /\ conns[c].s = "idle" /\ ~conns[c].b /\ conns[c].e > now}
Unfit == {c \in Numbers : conns[c].s = "idle" /\ conns[c].b}
Close(which) == [c \in Numbers |-> IF c \in which THEN [conns[c] EXCEPT !.s = "closed"] ELSE conns[c]]
Sent(s) == slots[s].p \in {"sent", "body"}

(* requests *)
Request(s, k, u) ==
  /\ slots[s].p = "none" /\ requests < MaxRequests /\ requests' = requests + 1 /\ UNCHANGED <<now, closed>>
  /\ \E gone \in SUBSET {c \in Unfit : conns[c].k = k} :
     IF Usable(k) # {}
     THEN \E c \in Usable(k) :
            /\ conns' = [Close(gone) EXCEPT ![c].s = "used"]
            /\ slots' = [slots EXCEPT ![s] = [p |-> "sent", c |-> c, k |-> k, i |-> "", u |-> u]]
            /\ Did("request", <<s, k, u>>, c)
     ELSE /\ conns' = Close(gone) /\ Did("request", <<s, k, u>>, 0)
          /\ slots' = [slots EXCEPT ![s] = [p |-> "connecting", c |-> 0, k |-> k, i |-> "", u |-> u]]
(* a closed connector may refuse at once, or after the connection was made *)
Refuse(s, k, u) ==
  /\ slots[s].p = "none" /\ closed /\ requests < MaxRequests /\ requests' = requests + 1 /\ UNCHANGED <<now, closed, conns>>
  /\ slots' = [slots EXCEPT ![s] = [Idle EXCEPT !.p = "failed"]] /\ Did("request", <<s, k, u>>, 0)
Created(s) ==
  /\ slots[s].p = "connecting" /\ Len(conns) < MaxConns /\ UNCHANGED <<now, requests, closed>>
  /\ conns' = Append(conns, [k |-> slots[s].k, s |-> IF closed THEN "closed" ELSE "used", e |-> 0, n |-> 0, b |-> FALSE])
  /\ IF closed THEN slots' = [slots EXCEPT ![s] = [Idle EXCEPT !.p = "failed"]] /\ Did("created", <<s>>, 0)
     ELSE slots' = [slots EXCEPT ![s].p = "sent", ![s].c = Len(conns) + 1] /\ Did("created", <<s>>, Len(conns) + 1)
Fails(s) ==
  /\ slots[s].p = "connecting" /\ UNCHANGED <<conns, now, requests, closed>>
  /\ slots' = [slots EXCEPT ![s] = [Idle EXCEPT !.p = "failed"]] /\ Did("fails", <<s>>, "-")
Cancel(s) ==
  /\ slots[s].p \in {"connecting", "sent"} /\ UNCHANGED <<now, requests, closed>>
  /\ conns' = IF slots[s].p = "sent" THEN Close({slots[s].c}) ELSE conns
  /\ slots' = [slots EXCEPT ![s] = Idle] /\ Did("cancel", <<s>>, "-")
(* the request's body is written *)
Uploaded(s) == /\ Sent(s) /\ slots[s].u /\ slots' = [slots EXCEPT ![s].u = FALSE] /\ Did("uploaded", <<s>>, "-")
               /\ UNCHANGED <<conns, now, requests, closed>>

(* responses *)
Over(s, info, more) ==
  /\ conns' = [conns EXCEPT ![slots[s].c] = Ended(@, info, slots[s].u \/ more)]
  /\ slots' = [slots EXCEPT ![s] = [Idle EXCEPT !.p = "ok"]]
Respond(s, info, how) ==
  /\ slots[s].p = "sent" /\ UNCHANGED <<now, requests, closed>> /\ Did("respond", <<s, info, how>>, "-")
  /\ (how = "upgrade" => ~slots[s].u) /\ (info = "endless" => how = "part")
  /\ IF how = "part" THEN slots' = [slots EXCEPT ![s].p = "body", ![s].i = info] /\ UNCHANGED conns
     ELSE IF how = "upgrade"
     THEN slots' = [slots EXCEPT ![s].p = "upgraded", ![s].i = info, ![s].u = FALSE] /\ UNCHANGED conns
     ELSE IF how = "broken"
     THEN /\ conns' = Close({slots[s].c}) /\ slots' = [slots EXCEPT ![s] = [Idle EXCEPT !.p = "failed"]]
     ELSE Over(s, info, how = "more")
Rest(s, more) ==
  /\ slots[s].p = "body" /\ slots[s].i # "endless" /\ UNCHANGED <<now, requests, closed>> /\ Did("rest", <<s, more>>, "-")
  /\ Over(s, slots[s].i, more)
(* Till a dropped response is received, its connection is not to be used for others, and it may be closed before. *)
RestDropped(c) ==
  /\ conns[c].s = "dropped" /\ conns[c].e = 0 /\ UNCHANGED <<slots, now, requests, closed>> /\ Did("restDropped", <<c>>, "-")
  /\ conns' = [conns EXCEPT ![c] = Ended(@, "short", FALSE)]
(* the server says end of file, or the connection is lost; that ends a response, what is to be read till the end of file *)
Lost(c, op) ==
  /\ conns[c].s \in {"used", "idle", "dropped"} /\ \A s \in Slots : slots[s].c = c => slots[s].p # "upgraded"
  /\ UNCHANGED <<now, requests, closed>> /\ Did(op, <<c>>, "-")
  /\ conns' = [conns EXCEPT ![c].s = "closed"]
  /\ slots' = [s \in Slots |-> IF slots[s].c = c
                              THEN [Idle EXCEPT !.p = IF op = "eof" /\ slots[s].p = "body" /\ slots[s].i = "endless" THEN "ok" ELSE "failed"]
                              ELSE slots[s]]
(* the server writes onto an idle connection *)
Junk(c) == /\ conns[c].s = "idle" /\ ~conns[c].b /\ conns' = [conns EXCEPT ![c].b = TRUE] /\ Did("junk", <<c>>, "-")
           /\ UNCHANGED <<slots, now, requests, closed>>

(* how a response is left *)
Leave(s, how) ==
  /\ slots[s].p \in {"body", "upgraded"} /\ UNCHANGED <<now, requests, closed>> /\ Did("leave", <<s, how>>, "-")
  /\ slots' = [slots EXCEPT ![s] = Idle]
  /\ CASE how = "detach" -> slots[s].p = "upgraded" /\ conns' = [conns EXCEPT ![slots[s].c].s = "detached"]
       [] how = "drop" -> /\ (slots[s].p = "upgraded" \/ (slots[s].i \in {"short", "endless"} /\ ~slots[s].u))
                          /\ \/ conns' = Close({slots[s].c})
                             \/ slots[s].p = "body" /\ conns' = [conns EXCEPT ![slots[s].c].s = "dropped", ![slots[s].c].e = IF slots[s].i = "short" THEN 0 ELSE 1]
       [] how = "break" -> slots[s].p = "body" /\ conns' = Close({slots[s].c})
       [] OTHER -> conns' = Close({slots[s].c})
(* after it was read, doing so has no effect *)
Done(s, how) == /\ slots[s].p \in {"ok", "failed"} /\ (slots[s].p = "failed" => how = "drop") /\ how \notin {"detach", "break"}
                /\ slots' = [slots EXCEPT ![s] = Idle] /\ Did("leave", <<s, how>>, "-") /\ UNCHANGED <<conns, now, requests, closed>>
Tick == /\ now < MaxTime /\ now' = now + 1 /\ Did("tick", <<>>, "-") /\ UNCHANGED <<slots, requests, closed>>
        /\ conns' = Close({c \in Numbers : conns[c].s = "idle" /\ conns[c].e <= now + 1})
Shut == /\ ~closed /\ closed' = TRUE /\ Did("shut", <<>>, "-") /\ UNCHANGED <<now, requests>>
        /\ conns' = Close({c \in Numbers : conns[c].s \in {"used", "idle", "dropped"}})
        /\ \E end \in {"failed"} \cup (IF \E s \in Slots : slots[s].i = "endless" THEN {"ok"} ELSE {}) :
           slots' = [s \in Slots |-> IF slots[s].p \notin {"sent", "body", "upgraded"} THEN slots[s]
                                   ELSE [Idle EXCEPT !.p = IF slots[s].i = "endless" THEN end ELSE "failed"]]

Init == /\ conns = <<>> /\ slots = [s \in Slots |-> Idle] /\ now = 0 /\ requests = 0 /\ closed = FALSE
        /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Next == \/ \E s \in Slots : \/ \E k \in Keys, u \in Uploads : Request(s, k, u) \/ Refuse(s, k, u)
                            \/ Created(s) \/ Cancel(s) \/ Uploaded(s)
                            \/ ("fails" \in Extras /\ Fails(s))
                            \/ \E i \in Infos, h \in Endings : Respond(s, i, h)
                            \/ ("part" \in Endings /\ \E m \in {FALSE, "more" \in Endings} : Rest(s, m))
                            \/ \E h \in {"close", "release", "drop", "detach", "break"} : Leave(s, h) \/ Done(s, h)
        \/ \E c \in Numbers : \/ ("eof" \in Extras /\ (Lost(c, "eof") \/ Lost(c, "reset")))
                              \/ ("junk" \in Extras /\ Junk(c)) \/ RestDropped(c)
        \/ Tick \/ ("shut" \in Extras /\ Shut)
Spec == Init /\ [][Next]_<<vars, act>>
View == St
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* a connection has at most one user, of its own key; what is used by none is idle, closed, dropped or detached *)
Exclusive == \A c \in Numbers : LET users == {s \in Slots : slots[s].c = c}
             IN /\ Cardinality(users) <= 1 /\ (conns[c].s = "used" <=> users # {}) /\ \A s \in users : slots[s].k = conns[c].k
Bounded == \A c \in Numbers : conns[c].s = "idle" => conns[c].e > now /\ ~closed
=============================================================================
