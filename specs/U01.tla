-------------------------------- MODULE U01 --------------------------------
(* An URL as its parts. Texts are opaque but for the segments of a path: any text may stand at any place.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Schemes, Users, Passwords, Hosts, Ports,     \* "-" and -1 where there is none
          Paths,        \* sequences of segments to start with
          Names,        \* sequences of segments: texts a path may be extended with, divided at each slash
          Keys, Pairs,  \* of queries; Pairs are sequences of <<key, value>>
          Forms,        \* how a query is given
          Fragments,
          Styles,       \* how a text of an url to read is written
          Ops,          \* what is done
          MaxPath, MaxValues, OnlyStart
VARIABLES url, act
vars == <<url>>
St == url
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
NoQuery == [k \in Keys |-> <<>>]

(* "." and ".." are resolved; nothing is above the root *)
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Fold(_, _)
Fold(done, left) ==
    IF left = <<>> THEN done
    ELSE IF left[1] = ".." THEN Fold(IF done = <<>> THEN <<>> ELSE Front(done), Tail(left))
    ELSE Fold(Append(done, left[1]), Tail(left))
Resolved(s) ==
    IF s = <<>> THEN <<>> ELSE
    LET kept == SelectSeq(Front(s), LAMBDA x : x # ".")
        ended == IF Last(s) # "." THEN Append(kept, Last(s)) ELSE IF kept = <<>> THEN <<>> ELSE Append(kept, "")
        done == Fold(<<>>, ended)
    IN IF done = <<"">> THEN <<>> ELSE done

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
RECURSIVE Extended(_, _)
Extended(q, pairs) == IF pairs = <<>> THEN q ELSE Extended([q EXCEPT ![pairs[1][1]] = Append(@, pairs[1][2])], Tail(pairs))
Distinct(q) == \A k \in Keys : Len(q[k]) <= MaxValues /\ \A i, j \in 1..Len(q[k]) : i # j => q[k][i] # q[k][j]

Absolute == url.host # "-"
Default(scheme) == CASE scheme = "http" -> 80 [] scheme = "https" -> 443 [] scheme = "ws" -> 80 [] scheme = "wss" -> 443 [] OTHER -> -1
Ob == [scheme |-> url.scheme, user |-> url.user, password |-> url.password, host |-> url.host,
       port |-> IF url.port >= 0 THEN url.port ELSE Default(url.scheme), path |-> url.path, query |-> url.query,
       fragment |-> url.fragment, absolute |-> Absolute, name |-> IF url.path = <<>> THEN "" ELSE Last(url.path),
       default |-> Default(url.scheme) >= 0 /\ (url.port = -1 \/ url.port = Default(url.scheme))]

Url(s, u, p, h, o, path, q, f) == [scheme |-> s, user |-> u, password |-> p, host |-> h, port |-> o, path |-> path, query |-> q, fragment |-> f]
Init == url = Url("http", "-", "-", "name", -1, <<>>, NoQuery, "-") /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]

(* an url is read from a text written by somebody else *)
Start == Url("http", "-", "-", "name", -1, <<>>, NoQuery, "-")
Read == "read" \in Ops /\ (OnlyStart => url = Start) /\ \E s \in Schemes, u \in Users, p \in Passwords, h \in Hosts, o \in Ports, path \in Paths, q \in Pairs, f \in Fragments,
            style \in Styles :
    LET n == Url(s, u, p, h, o, Resolved(path), Extended(NoQuery, q), f) IN
    /\ Distinct(n.query) /\ url' = n /\ Did("read", <<s, u, p, h, o, path, q, f, style>>, "-")
(* what changes the authority needs one *)
Changed(op, a, n) == IF Absolute THEN url' = n /\ Did(op, a, "-") ELSE url' = url /\ Did(op, a, "ValueError")
WithScheme == "scheme" \in Ops /\ \E s \in Schemes : Changed("with_scheme", <<s>>, [url EXCEPT !.scheme = s])
WithUser == "user" \in Ops /\ \E u \in Users : Changed("with_user", <<u>>, [url EXCEPT !.user = u])
WithPassword == "user" \in Ops /\ \E p \in Passwords : Changed("with_password", <<p>>, [url EXCEPT !.password = p])
WithHost == "host" \in Ops /\ \E h \in Hosts : Changed("with_host", <<h>>, [url EXCEPT !.host = h])
BadHost == "host" \in Ops /\ url' = url /\ Did("with_bad_host", <<>>, "ValueError")
WithPort == "port" \in Ops /\ \E o \in Ports : Changed("with_port", <<o>>, [url EXCEPT !.port = o])
Origin == "origin" \in Ops /\ Changed("origin", <<>>, Url(url.scheme, "-", "-", url.host, url.port, <<>>, NoQuery, "-"))
Relative == "origin" \in Ops /\ Changed("relative", <<>>, Url("-", "-", "-", "-", -1, url.path, url.query, url.fragment))
WithQuery == "query" \in Ops /\ \E q \in Pairs, form \in Forms :
    /\ Distinct(Extended(NoQuery, q)) /\ url' = [url EXCEPT !.query = Extended(NoQuery, q)] /\ Did("with_query", <<q, form>>, "-")
ExtendQuery == "extend" \in Ops /\ \E q \in Pairs, form \in Forms :
    /\ Distinct(Extended(url.query, q)) /\ url' = [url EXCEPT !.query = Extended(@, q)] /\ Did("extend_query", <<q, form>>, "-")
WithFragment == "fragment" \in Ops /\ \E f \in Fragments : url' = [url EXCEPT !.fragment = f] /\ Did("with_fragment", <<f>>, "-")
(* paths ending with a slash are extended only by `with_name` and `join`; no path starts with an empty segment *)
Fits(s) == IF s = <<>> THEN TRUE ELSE Len(s) <= MaxPath /\ s[1] # ""
Slashed(s) == IF s = <<>> THEN FALSE ELSE Last(s) = ""
Divide == "path" \in Ops /\ \E n \in Names :
    /\ ~Slashed(url.path) /\ (IF url.path = <<>> THEN n[1] # "" ELSE TRUE)
    /\ Fits(Resolved(url.path \o n)) /\ url' = [url EXCEPT !.path = Resolved(@ \o n)] /\ Did("divide", <<n>>, "-")
WithName == "path" \in Ops /\ \E n \in Names :
    LET path == IF url.path = <<>> THEN n ELSE Front(url.path) \o n IN
    /\ (Len(url.path) <= 1 => n[1] # "")
    /\ Fits(Resolved(path)) /\ url' = [url EXCEPT !.path = Resolved(path), !.query = NoQuery, !.fragment = "-"] /\ Did("with_name", <<n>>, "-")
Parent == "path" \in Ops /\ url' = [url EXCEPT !.path = IF @ = <<>> THEN @ ELSE Front(@), !.query = NoQuery, !.fragment = "-"] /\ Did("parent", <<>>, "-")
Join == "join" \in Ops /\ \E path \in Paths, q \in Pairs, f \in Fragments :
    LET n == [url EXCEPT !.path = Resolved(@ \o Resolved(path)), !.query = Extended(NoQuery, q), !.fragment = f] IN
    /\ (IF Resolved(path) = <<>> THEN TRUE ELSE ~Slashed(url.path))
    /\ Distinct(n.query) /\ Fits(n.path) /\ url' = n /\ Did("join", <<path, q, f>>, "-")
Next == \/ Read \/ WithScheme \/ WithUser \/ WithPassword \/ WithHost \/ BadHost \/ WithPort \/ Origin \/ Relative
        \/ WithQuery \/ ExtendQuery \/ WithFragment \/ Divide \/ WithName \/ Parent \/ Join
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
NoDots == \A i \in 1..Len(url.path) : url.path[i] \notin {".", ".."}
=============================================================================
