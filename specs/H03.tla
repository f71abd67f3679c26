-------------------------------- MODULE H03 --------------------------------
(* A cookie jar. A host is a record of whether it is an address and its labels, a path is a sequence of characters.      *)
(* `jar` maps <<domain, name>> to the cookie; a cookie's `left` is the time it is still valid for, -1 if for ever.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sets, Requests, Names, Domains, Safe, Histories, Advances
VARIABLES jar, almost, act
vars == <<jar, almost>>
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Shared == [ip |-> FALSE, labels |-> <<>>]
RECURSIVE Text(_, _)
Text(labels, between) == IF labels = <<>> THEN "" ELSE IF Len(labels) = 1 THEN labels[1] ELSE labels[1] \o between \o Text(Tail(labels), between)
St == [jar |-> {<<Text(k[1], "."), k[2], jar[k]>> : k \in DOMAIN jar}, almost |-> almost]
EndsWith(l, m) == Len(l) >= Len(m) /\ SubSeq(l, Len(l) - Len(m) + 1, Len(l)) = m
StartsWith(l, m) == Len(l) >= Len(m) /\ SubSeq(l, 1, Len(m)) = m
Belongs(host, domain) == host.labels = domain \/ (~host.ip /\ EndsWith(host.labels, domain))
(* the directory of a path *)
Slashes(p) == {i \in 1..Len(p) : p[i] = "/"}
Directory(p) == IF p = <<>> \/ p[1] # "/" \/ Cardinality(Slashes(p)) < 2 THEN <<"/">>
                ELSE SubSeq(p, 1, (CHOOSE i \in Slashes(p) : \A j \in Slashes(p) : j <= i) - 1)
PathMatches(path, c) == path = c \/ (StartsWith(path, c) /\ (c[Len(c)] = "/" \/ path[Len(c) + 1] = "/"))
Given(s) == s.domain.style \notin {"none", "trailing"}
Domain(s) == IF Given(s) THEN s.domain.labels ELSE s.from.labels
Accepted(s) == (~Safe \/ ~s.from.ip) /\ (Given(s) /\ s.from # Shared => Belongs(s.from, s.domain.labels))
Cookie(s) == [value |-> s.value, hostOnly |-> ~Given(s), secure |-> s.secure,
              path |-> IF s.path # <<>> /\ s.path[1] = "/" THEN s.path ELSE Directory(s.at), left |-> s.life[2]]
Without(k) == [x \in DOMAIN jar \ {k} |-> jar[x]]
Put(k, c) == [x \in DOMAIN jar \cup {k} |-> IF x = k THEN c ELSE jar[x]]
Goes(k, r) == LET c == jar[k] IN
    \/ k[1] = <<>>
    \/ /\ ~Safe \/ ~r.host.ip
       /\ IF c.hostOnly THEN r.host.labels = k[1] ELSE Belongs(r.host, k[1])
       /\ PathMatches(r.path, c.path)
       /\ c.secure => r.scheme \in {"https", "wss"}
(* of cookies having the same name one is sent *)
Candidates(r, n) == {jar[k].value : k \in {k \in DOMAIN jar : k[2] = n /\ Goes(k, r)}}
Choices(r, n) == IF Candidates(r, n) = {} THEN {"-"} ELSE Candidates(r, n)
Ob == [d \in Domains |-> [n \in Names |->
        LET ks == {k \in DOMAIN jar : k[2] = n /\ Text(k[1], ".") = d} IN IF ks = {} THEN "-" ELSE jar[CHOOSE k \in ks : TRUE].value]]
Init == jar = [k \in {} |-> 0] /\ almost = FALSE /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Set(s) == /\ ~almost /\ (Histories \/ DOMAIN jar = {})
          /\ UNCHANGED almost
          /\ Did("set", <<s.name, s.value, s.from.ip, Text(s.from.labels, "."), Text(s.at, ""), s.domain.style,
                          Text(s.domain.labels, "."), Text(s.path, ""), s.secure, s.life>>, "-")
          /\ IF ~Accepted(s) THEN UNCHANGED jar
             ELSE IF s.life[2] = 0 THEN jar' = Without(<<Domain(s), s.name>>)
             ELSE jar' = Put(<<Domain(s), s.name>>, Cookie(s))
Request(r) == /\ UNCHANGED vars
              /\ \E f \in [Names -> UNION {Choices(r, n) : n \in Names}] :
                    /\ \A n \in Names : f[n] \in Choices(r, n)
                    /\ Did("request", <<r.scheme, r.host.ip, Text(r.host.labels, "."), Text(r.path, "")>>, f)
Approach == /\ Advances /\ ~almost /\ almost' = TRUE /\ UNCHANGED jar /\ Did("approach", <<>>, "-")
Arrive == /\ almost /\ almost' = FALSE /\ Did("arrive", <<>>, "-")
          /\ jar' = [k \in {k \in DOMAIN jar : jar[k].left # 1} |-> IF jar[k].left < 0 THEN jar[k] ELSE [jar[k] EXCEPT !.left = @ - 1]]
Clear == Histories /\ jar' = [k \in {} |-> 0] /\ UNCHANGED almost /\ Did("clear", <<>>, "-")
Pickle == Histories /\ (\A k \in DOMAIN jar : jar[k].left < 0) /\ UNCHANGED vars /\ Did("pickle", <<>>, "-")
Next == (\E s \in Sets : Set(s)) \/ (\E r \in Requests : Request(r)) \/ Approach \/ Arrive \/ Clear \/ Pickle
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* what is set and asked for in the parts of the check *)
Host(l) == [ip |-> FALSE, labels |-> l]
Address(l) == [ip |-> TRUE, labels |-> l]
A == Host(<<"bb", "aa">>)   B == Host(<<"cc", "bb", "aa">>)   X == Host(<<"xbb", "aa">>)   L == Host(<<"localhost">>)
V4 == Address(<<"1", "2", "3", "4">>)   V6 == Address(<<"::1">>)
Root == <<"/">>
No == [style |-> "none", labels |-> <<>>]
OfDomain(style, l) == [style |-> style, labels |-> l]
Forever == <<"none", -1>>
Make(n, v, f, at, d, p, s, l) == [name |-> n, value |-> v, from |-> f, at |-> at, domain |-> d, path |-> p, secure |-> s, life |-> l]
Ask(s, h, p) == [scheme |-> s, host |-> h, path |-> p]
DomainSets == {Make("n", "1", f, Root, d, <<>>, FALSE, Forever) :
    f \in {A, B, X, L, V4, V6, Shared},
    d \in {No} \cup {OfDomain(style, <<"bb", "aa">>) : style \in {"plain", "dot", "trailing", "upper"}}
          \cup {OfDomain("plain", l) : l \in {<<"cc", "bb", "aa">>, <<"xbb", "aa">>, <<"aa">>, <<"localhost">>, <<"3", "4">>,
                                             <<"1", "2", "3", "4">>, <<"::1">>}}}
DomainRequests == {Ask("http", h, Root) : h \in {A, B, X, L, V4, V6, Host(<<"dd", "cc", "bb", "aa">>), Host(<<"yy", "aa">>)}}
Paths == {<<"/">>, <<"/", "p">>, <<"/", "p", "/">>, <<"/", "p", "/", "q">>, <<"/", "p", "/", "q", "/">>, <<"/", "p", "q">>,
          <<"/", "p", "/", "q", "/", "r">>}
PathSets == {Make("n", "1", A, at, No, p, s, Forever) : at \in Paths, p \in Paths \cup {<<>>, <<"p">>}, s \in BOOLEAN}
PathRequests == {Ask(s, A, p) : s \in {"http", "https", "ws", "wss"}, p \in Paths}
Lives == {<<"none", -1>>, <<"age", 0>>, <<"age", 1>>, <<"age", 2>>, <<"negative age", 0>>, <<"bad age", -1>>, <<"huge age", -1>>,
          <<"date", 2>>, <<"date", 1>>, <<"past date", 0>>, <<"bad date", -1>>, <<"age and date", 2>>, <<"bad age and date", 1>>}
FewLives == {<<"none", -1>>, <<"age", 0>>, <<"age", 1>>, <<"date", 2>>}
HistorySets == {Make("n", v, f, Root, d, <<>>, FALSE, l) :
    v \in {"1", "2"}, f \in {A, B}, d \in {No, OfDomain("plain", <<"bb", "aa">>)}, l \in Lives}
NamesSets == {Make(n, "1", f, Root, d, <<>>, FALSE, l) :
    n \in {"n", "m"}, f \in {A, B}, d \in {No, OfDomain("plain", <<"bb", "aa">>)}, l \in FewLives}
    \cup {Make("n", "2", Shared, Root, No, <<>>, FALSE, <<"none", -1>>)}
HistoryRequests == {Ask("http", h, Root) : h \in {A, B}}
(* the property *)
(* never sent to a host that is not one of its domain, nor when it is not valid any more *)
Within == \A k \in DOMAIN jar : jar[k].left # 0
Confined == \A k \in DOMAIN jar, r \in Requests : Goes(k, r) /\ k[1] # <<>> =>
    (r.host.labels = k[1] \/ (EndsWith(r.host.labels, k[1]) /\ ~r.host.ip /\ ~jar[k].hostOnly))
Secure == \A k \in DOMAIN jar, r \in Requests : Goes(k, r) /\ k[1] # <<>> /\ jar[k].secure => r.scheme \in {"https", "wss"}
=============================================================================
