-------------------------------- MODULE Q01 --------------------------------
(* Messages of the domain name system, byte by byte. `body` is what follows the 12 bytes of the header. Parse gives   *)
(* what a message encodes; a name may jump only to before where it was being read from.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Counts, Flags, Tokens, MaxTokens, Cuts, Names, Kinds, Datas, MaxQuestions, MaxAdditional
VARIABLES body, flags, length, act
vars == <<body, flags, length>>
St == [body |-> body, flags |-> flags]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Two(n) == <<n \div 256, n % 256>>
Id == 4660
Message(f, b) == Two(Id) \o Two(f) \o Two(Counts[1]) \o Two(Counts[2]) \o Two(Counts[3]) \o Two(Counts[4]) \o b
Short == [ok |-> FALSE, short |-> TRUE]
Bad == [ok |-> FALSE, short |-> FALSE]
(* the only one; binding it once is faster than a definition TLC evaluates again and again *)
The(set) == CHOOSE x \in set : TRUE
Number(d, i) == d[i] * 256 + d[i + 1]
(* the labels at i (from 1) and where the name ends; `low` is where this part of the name started *)
RECURSIVE Name(_, _, _)
Name(d, i, low) ==
    IF i > Len(d) THEN Short
    ELSE IF d[i] = 0 THEN [ok |-> TRUE, labels |-> <<>>, end |-> i + 1]
    ELSE IF d[i] < 64 THEN
        IF i + d[i] > Len(d) THEN Short
        ELSE The({IF rest.ok THEN [rest EXCEPT !.labels = <<SubSeq(d, i + 1, i + d[i])>> \o @] ELSE rest :
                  rest \in {Name(d, i + d[i] + 1, low)}})
    ELSE IF d[i] < 192 THEN Bad
    ELSE IF i + 1 > Len(d) THEN Short
    ELSE The({IF target >= low THEN Bad
              ELSE The({IF rest.ok THEN [rest EXCEPT !.end = i + 2] ELSE rest : rest \in {Name(d, target, target)}}) :
              target \in {(d[i] - 192) * 256 + d[i + 1] + 1}})
Question(d, i) ==
    The({
    IF ~name.ok THEN name
    ELSE IF name.end + 3 > Len(d) THEN Short
    ELSE [ok |-> TRUE, end |-> name.end + 4,
          value |-> [labels |-> name.labels, type |-> Number(d, name.end), class |-> Number(d, name.end + 2)]]
    : name \in {Name(d, i, i)}})
RECURSIVE Flat(_)
Flat(labels) == IF labels = <<>> THEN <<0>> ELSE <<Len(labels[1])>> \o labels[1] \o Flat(Tail(labels))
Pointer == 12
(* the name of a pointer record is told uncompressed *)
Data(d, i, end, type) ==
    The({IF type = Pointer /\ name.ok /\ name.labels # <<>> /\ name.end = end THEN Flat(name.labels) ELSE SubSeq(d, i, end - 1) :
         name \in {Name(d, i, i)}})
Record(d, i) ==
    The({
    IF ~name.ok THEN name
    ELSE IF name.end + 9 > Len(d) THEN Short
    ELSE The({
         IF end - 1 > Len(d) THEN Short
         ELSE [ok |-> TRUE, end |-> end,
               value |-> [labels |-> name.labels, type |-> Number(d, e), class |-> Number(d, e + 2),
                          duration |-> SubSeq(d, e + 4, e + 7), data |-> Data(d, e + 10, end, Number(d, e))]]
         : end \in {name.end + 10 + Number(d, name.end + 8)}, e \in {name.end}})
    : name \in {Name(d, i, i)}})
RECURSIVE Many(_, _, _, _)
Many(d, i, count, records) ==
    IF count = 0 THEN [ok |-> TRUE, end |-> i, value |-> <<>>]
    ELSE The({IF ~one.ok THEN one
              ELSE The({IF ~rest.ok THEN rest ELSE [rest EXCEPT !.value = <<one.value>> \o @] :
                        rest \in {Many(d, one.end, count - 1, records)}}) :
              one \in {IF records THEN Record(d, i) ELSE Question(d, i)}})
Bit(n, b) == (n \div 2^b) % 2 = 1
Section(d, before, at) == IF ~before.ok THEN before ELSE Many(d, before.end, Number(d, at), at # 5)
Whole(d) ==
    IF Len(d) < 12 THEN Short
    ELSE The({The({The({The({
    IF ~ar.ok THEN ar
    ELSE [ok |-> TRUE, id |-> Number(d, 1), verified |-> Bit(Number(d, 3), 5), truncated |-> Bit(Number(d, 3), 9),
          recursion |-> Bit(Number(d, 3), 7), code |-> d[4] % 16,
          questions |-> q.value, answers |-> an.value, authorities |-> ns.value, additional |-> ar.value]
    : ar \in {Section(d, ns, 11)}}) : ns \in {Section(d, an, 9)}}) : an \in {Section(d, q, 7)}})
    : q \in {Section(d, [ok |-> TRUE, end |-> 13], 5)}})
Parse(m) == The({Whole(d) : d \in {m}})
Shown(p) == IF p.ok THEN p ELSE [ok |-> FALSE]
Ob == Shown(Parse(Message(flags, body)))
(* a query *)
Questions == [labels : Names, type : Kinds, class : {1, 255}]
Records == [labels : Names, type : Kinds, class : {1232}, duration : {<<0, 1, 2, 255>>}, data : Datas]
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
RECURSIVE All(_)
All(parts) == IF parts = <<>> THEN <<>> ELSE parts[1] \o All(Tail(parts))
OfQuestion(q) == Flat(q.labels) \o Two(q.type) \o Two(q.class)
OfRecord(r) == Flat(r.labels) \o Two(r.type) \o Two(r.class) \o r.duration \o Two(Len(r.data)) \o r.data
B(b, n) == IF b THEN 2^n ELSE 0
Encoded(id, rd, cd, ad, qs, rs) ==
    Two(id) \o Two(B(rd, 8) + B(cd, 4) + B(ad, 5)) \o Two(Len(qs)) \o <<0, 0, 0, 0>> \o Two(Len(rs)) \o All([i \in 1..Len(qs) |-> OfQuestion(qs[i])]) \o All([i \in 1..Len(rs) |-> OfRecord(rs[i])])
Query(id, rd, cd, ad, qs, rs) ==
    LET e == Encoded(id, rd, cd, ad, qs, rs) IN
    /\ UNCHANGED vars /\ Did("query", <<id, rd, cd, ad, qs, rs>>, [bytes |-> e, parsed |-> Shown(Parse(e))])
Init == body = <<>> /\ flags = 0 /\ length = 0 /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
(* more is added while the message is not whole, and one token after it is *)
Append_(t) == /\ length < MaxTokens
              /\ LET p == Parse(Message(flags, body)) IN ~p.ok /\ p.short
              /\ body' = body \o t /\ length' = length + 1 /\ UNCHANGED flags /\ Did("append", t, "-")
Trailing == /\ Cuts /\ Parse(Message(flags, body)).ok /\ UNCHANGED vars
            /\ \E t \in Tokens : Did("trailing", t, Shown(Parse(Message(flags, body \o t))))
SetFlags(f) == body = <<>> /\ flags = 0 /\ flags' = f /\ UNCHANGED <<body, length>> /\ Did("flags", <<f>>, "-")
(* only the first n bytes arrive *)
Cut(n) == /\ Cuts /\ n < Len(Message(flags, body)) /\ UNCHANGED vars
          /\ Did("cut", <<n>>, Shown(Parse(SubSeq(Message(flags, body), 1, n))))
Next == \/ \E t \in Tokens : Append_(t)
        \/ Trailing
        \/ \E f \in Flags : SetFlags(f)
        \/ (Parse(Message(flags, body)).ok /\ \E n \in 0..Len(Message(flags, body)) : Cut(n))
        \/ \E rd, cd, ad \in BOOLEAN, qs \in Lists(Questions, MaxQuestions), rs \in Lists(Records, MaxAdditional) :
              body = <<>> /\ flags = 0 /\ MaxQuestions > 0 /\ Query(IF rd THEN 65535 ELSE 258, rd, cd, ad, qs, rs)
Spec == Init /\ [][Next]_<<vars, act>>
View == <<body, flags>>
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
Inside == LET d == Message(flags, body) IN Parse(d).ok => Len(body) > 0 \/ Counts = <<0, 0, 0, 0>>
(* what a query is built to is parsed back to it, and nothing less than all of it is *)
RoundTrip == [][act'.op = "query" => /\ act'.r.parsed.ok /\ act'.r.parsed.id = act'.a[1] /\ act'.r.parsed.verified = act'.a[4]
                                     /\ act'.r.parsed.questions = act'.a[5] /\ act'.r.parsed.additional = act'.a[6]
                                     /\ act'.r.parsed.answers = <<>> /\ act'.r.parsed.authorities = <<>>]_<<vars, act>>
=============================================================================
