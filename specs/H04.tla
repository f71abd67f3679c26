-------------------------------- MODULE H04 --------------------------------
(* Following redirects. An origin is a scheme, a host and a port; a path is its segments, the last one empty after a slash. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Origins,      \* names of them
          HostOf,       \* their hosts, as cookies are of hosts
          Methods, Datas, Queries, Auths, HostHeaders, Functions, Limits,   \* how requests are made
          Statuses, Locations, Cookies,                                     \* what servers respond with
          MaxRequests, Lead
VARIABLES hop,          \* the request a server has got
          jar,          \* host -> value of its cookie
          count, act
vars == <<hop, jar, count>>
St == [hop |-> hop, jar |-> jar, count |-> count]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Idle == [phase |-> "idle", origin |-> "-", method |-> "-", path |-> <<>>, query |-> "-", data |-> "none", auth |-> "none", host |-> "auto",
         cookie |-> "-", left |-> 0, past |-> 0, status |-> 0, own |-> FALSE]
Ob == IF hop.phase = "sent" THEN
          [phase |-> "sent", origin |-> hop.origin, method |-> hop.method, path |-> hop.path, query |-> hop.query, data |-> hop.data,
           auth |-> hop.auth, host |-> hop.host, cookie |-> hop.cookie]
      ELSE [phase |-> hop.phase, origin |-> hop.origin, path |-> hop.path, past |-> hop.past, status |-> hop.status]
Init == hop = Idle /\ jar = [h \in {HostOf[o] : o \in DOMAIN HostOf} |-> "-"] /\ count = 0 /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]

Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Fold(_, _)
Fold(done, left) ==
    IF left = <<>> THEN done
    ELSE LET rest == Tail(left)  x == left[1]
             popped == IF done = <<>> THEN <<>> ELSE Front(done) IN
         IF x = "." THEN Fold(IF rest = <<>> THEN Append(done, "") ELSE done, rest)
         ELSE IF x = ".." THEN Fold(IF rest = <<>> THEN Append(popped, "") ELSE popped, rest)
         ELSE Fold(Append(done, x), rest)
(* RFC 3986, 5.2 *)
Target(h, l) ==
    CASE l.kind \in {"absolute", "uri", "login", "network"} -> [o |-> l.origin, p |-> Fold(<<>>, l.path), q |-> l.query]
      [] l.kind = "rooted" -> [o |-> h.origin, p |-> Fold(<<>>, l.path), q |-> l.query]
      [] l.kind = "relative" -> [o |-> h.origin, p |-> Fold(<<>>, Front(h.path) \o l.path), q |-> l.query]
      [] OTHER -> [o |-> h.origin, p |-> h.path, q |-> l.query] \* "query"

Request == hop.phase \in {"idle", "done", "failed"} /\ count < MaxRequests
    /\ \E m \in Methods, d \in Datas, q \in Queries, a \in Auths, h \in HostHeaders, f \in Functions, n \in Limits, o \in Origins :
       /\ (d # "none" => m \in {"POST", "PUT"}) /\ (f = 1 => a # "parameter")
       /\ hop' = [Idle EXCEPT !.phase = "sent", !.origin = o, !.method = m, !.path = <<"d", "s">>, !.query = q, !.data = d,
                  !.auth = IF a = "none" THEN "none" ELSE "mine", !.host = h, !.cookie = jar[HostOf[o]], !.left = n]
       /\ count' = count + 1 /\ jar' = jar /\ Did("request", <<m, o, d, q, a, h, f, n>>, "-")
Redirects == {301, 302, 303, 307}
ToGet(m, s) == (s = 303 /\ m # "HEAD") \/ (s \in {301, 302} /\ m = "POST")
Respond == hop.phase = "sent" /\ \E s \in Statuses, l \in Locations, c \in Cookies :
    LET newJar == IF c = "-" THEN jar ELSE [jar EXCEPT ![HostOf[hop.origin]] = c]
        followed == s \in Redirects /\ hop.left > 0
        t == Target(hop, l)
        same == t.o = hop.origin
        get == ToGet(hop.method, s)
        ended == [hop EXCEPT !.phase = "done", !.status = s] IN
    /\ (s \notin Redirects => l.kind = "missing")
    /\ (l.kind = "network" => Lead[l.origin] = Lead[hop.origin])  \* the same scheme is kept
    /\ (l.kind = "login" => ~same \/ hop.auth = "none")
    /\ jar' = newJar /\ count' = count
    /\ hop' = IF ~followed THEN ended
              ELSE IF hop.left = 1 THEN [ended EXCEPT !.phase = "failed", !.past = @ + 1]
              ELSE IF l.kind = "missing" THEN [ended EXCEPT !.past = @ + 1]
              ELSE IF l.kind = "bad" THEN [ended EXCEPT !.phase = "failed", !.past = @ + 1]
              ELSE [hop EXCEPT !.origin = t.o, !.path = t.p, !.query = t.q, !.left = @ - 1, !.past = @ + 1,
                    !.method = IF get THEN "GET" ELSE @, !.data = IF get THEN "none" ELSE @,
                    !.auth = IF l.kind = "login" THEN "login" ELSE IF same THEN @ ELSE "none",
                    !.host = IF same THEN @ ELSE "auto", !.cookie = newJar[HostOf[t.o]]]
    /\ Did("respond", <<s, l, c>>, "-")
(* the user is gone in the middle *)
Cancel == hop.phase = "sent" /\ hop' = Idle /\ UNCHANGED <<jar, count>> /\ Did("cancel", <<>>, "-")
Next == Request \/ Respond \/ Cancel
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* what is somebody's own stays at his *)
NoBodyOfGet == hop.phase = "sent" /\ hop.method \in {"GET", "HEAD"} => hop.data = "none"
CookieOfHost == hop.phase = "sent" => hop.cookie = jar[HostOf[hop.origin]]
=============================================================================
