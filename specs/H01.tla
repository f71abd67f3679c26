-------------------------------- MODULE H01 --------------------------------
(* Messages written on a connection and read on its other end. The wire is a text; messages having an opaque body       *)
(* (compressed or long) have that many units in place of its bytes, which the adapter maps to places within the bytes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Messages, MaxMessages, Steps, Marks
VARIABLES sent,      \* messages written
          arrived,   \* how much of the wire
          mode,      \* how it is read: "" if not yet
          ended,     \* whether the connection is at its end
          done,      \* how many outcomes the reader got
          act
vars == <<sent, arrived, mode, ended, done>>
St == [sent |-> sent, arrived |-> arrived, mode |-> mode, ended |-> ended, done |-> done]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE l[1] \o Join(Tail(l))
CRLF == "\r\n"
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Based(_, _)
Based(n, base) == IF n < base THEN Digits[n + 1] ELSE Based(n \div base, base) \o Digits[(n % base) + 1]
RECURSIVE Lines(_)
Lines(headers) == IF headers = <<>> THEN "" ELSE headers[1][1] \o ": " \o headers[1][2] \o CRLF \o Lines(Tail(headers))
Start(m) == IF m.side = "request" THEN m.start[1] \o " " \o m.start[2] \o " HTTP/" \o m.start[3] \o CRLF
            ELSE "HTTP/" \o m.start[3] \o " " \o m.start[1] \o " " \o m.start[2] \o CRLF
Top(m) == Start(m) \o Lines(m.headers) \o CRLF
RECURSIVE Chunks(_)
Chunks(l) == IF l = <<>> THEN "0\r\n\r\n"
             ELSE IF l[1] = "" THEN Chunks(Tail(l)) ELSE Based(Len(l[1]), 16) \o CRLF \o l[1] \o CRLF \o Chunks(Tail(l))
Body(m) == IF m.framing = "chunked" THEN Chunks(m.writes) ELSE Join(m.writes)
(* a raw message is one that is not written by the writer *)
Raw(m) == m.framing = "raw"
Opaque(m) == m.body = "opaque"
HeadLength(m) == IF Raw(m) THEN Len(m.writes[1]) ELSE Len(Top(m))
BodyLength(m) == IF Opaque(m) THEN m.marks ELSE IF Raw(m) THEN Len(m.writes[2]) ELSE Len(Body(m))
Length(m) == HeadLength(m) + BodyLength(m)
RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN 0 ELSE Length(l[1]) + Sum(Tail(l))
Total == Sum(sent)
Until(i) == Sum(SubSeq(sent, 1, i))
(* what the reader of the message gets *)
Outcome(m) == IF m.outcome # <<>> THEN m.outcome
              ELSE <<"message", m.start, m.headers, IF Opaque(m) THEN m.writes ELSE <<Join(m.writes)>>>>
(* the outcomes the reader has after this much *)
EndsAtEof(m) == m.framing \in {"eof", "tunnel"}
AtEof(m, n) == IF n < HeadLength(m) THEN <<"error">> ELSE IF n >= Length(m) THEN Outcome(m)
               ELSE IF ~Opaque(m) THEN <<"message", m.start, m.headers, <<SubSeq(Body(m), 1, n - HeadLength(m))>>>>
               ELSE IF n = HeadLength(m) THEN <<"message", m.start, m.headers, <<>>>> ELSE <<"error">>
RECURSIVE Outcomes(_, _, _)
Outcomes(l, n, over) ==
    IF l = <<>> THEN (IF over THEN << <<"error">> >> ELSE <<>>)
    ELSE LET m == l[1] IN
         IF EndsAtEof(m) /\ over
         THEN LET o == AtEof(m, n) IN IF o = <<"error">> THEN <<o>> ELSE <<o, <<"error">>>>
         ELSE IF n < Length(m) \/ EndsAtEof(m) THEN (IF over THEN << <<"error">> >> ELSE <<>>)
         ELSE IF Outcome(m) = <<"error">> THEN << <<"error">> >>
         ELSE <<Outcome(m)>> \o Outcomes(Tail(l), n - Length(m), over)
All(n, over) == Outcomes(sent, n, over)
Ob == [arrived |-> arrived, waits |-> mode # "" /\ (done = 0 \/ All(arrived, ended)[done] # <<"error">>)]
Last == IF sent = <<>> THEN <<>> ELSE sent[Len(sent)]
Shown(m) == IF Opaque(m) THEN Top(m) ELSE IF Raw(m) THEN "-" ELSE Top(m) \o Body(m)
Write(m) == /\ mode = "" /\ arrived = 0 /\ ~ended /\ Len(sent) < MaxMessages
            /\ (sent # <<>> => ~EndsAtEof(Last) /\ Last.side = m.side /\ Last.outcome # <<"error">>)
            /\ sent' = Append(sent, m) /\ Did("write", <<m>>, Shown(m)) /\ UNCHANGED <<arrived, mode, ended, done>>
New(n, over) == SubSeq(All(n, over), done + 1, Len(All(n, over)))
Deliver(k) == /\ sent # <<>> /\ k > 0 /\ arrived + k <= Total /\ ~ended /\ arrived' = arrived + k /\ UNCHANGED <<sent, mode, ended>>
              /\ IF mode # "" THEN done' = Len(All(arrived + k, FALSE)) /\ Did("deliver", <<k>>, New(arrived + k, FALSE))
                 ELSE UNCHANGED done /\ Did("deliver", <<k>>, <<>>)
Read(how) == /\ mode = "" /\ sent # <<>> /\ mode' = how /\ done' = Len(All(arrived, ended))
             /\ Did("read", <<how>>, New(arrived, ended)) /\ UNCHANGED <<sent, arrived, ended>>
End == /\ ~ended /\ sent # <<>> /\ ended' = TRUE /\ UNCHANGED <<sent, arrived, mode>>
       /\ IF mode # "" /\ (done = 0 \/ All(arrived, FALSE)[done] # <<"error">>)
          THEN done' = Len(All(arrived, TRUE)) /\ Did("end", <<>>, New(arrived, TRUE))
          ELSE UNCHANGED done /\ Did("end", <<>>, <<>>)
Init == sent = <<>> /\ arrived = 0 /\ mode = "" /\ ended = FALSE /\ done = 0 /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Next == \/ \E m \in Messages : Write(m)
        \/ \E k \in Steps \cup {Total - arrived} \cup {Until(i) - arrived : i \in 1..Len(sent)} : Deliver(k)
        \/ \E how \in {"whole", "pieces"} : Read(how)
        \/ End
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))

(* the messages of the parts of the check *)
M(side, start, headers, framing, writes) ==
    [side |-> side, start |-> start, headers |-> headers, framing |-> framing, writes |-> writes, body |-> "-", outcome |-> <<>>,
     encoding |-> "", marks |-> 0, damage |-> ""]
Post == <<"POST", "/a?b=c", "1.1">>   Get == <<"GET", "/", "1.1">>   Old == <<"PUT", "/old", "1.0">>
Okay == <<"200", "OK", "1.1">>   Missing == <<"404", "Not Found", "1.0">>
LengthIs(n) == <<"Content-Length", Based(n, 10)>>
Chunked == <<"Transfer-Encoding", "chunked">>
Plain == {M("request", Get, <<>>, "none", <<>>), M("request", Get, << <<"X-A", "1">>, <<"X-A", "2">>, <<"B", "x: y">> >>, "none", <<>>),
          M("request", Old, <<LengthIs(3)>>, "length", <<"a", "", "bc">>), M("request", Post, <<LengthIs(0)>>, "length", <<>>),
          M("request", Post, <<Chunked>>, "chunked", <<"ab\r\n", "", "0\r\n\r\n">>), M("request", Post, <<Chunked>>, "chunked", <<>>),
          M("request", Post, <<Chunked>>, "chunked", <<"0123456789abcdefg">>),
          M("response", Okay, <<LengthIs(4)>>, "length", <<"\r\n\r\n">>), M("response", Missing, <<Chunked, <<"X", "y">> >>, "chunked", <<"abc">>),
          M("response", Okay, << <<"Content-length", "0">> >>, "length", <<>>), M("response", Okay, <<>>, "eof", <<"abc", "d">>),
          M("response", <<"204", "No Content", "1.1">>, <<>>, "none", <<>>), M("response", <<"304", "Not Modified", "1.1">>, <<LengthIs(5)>>, "none", <<>>),
          M("request", <<"CONNECT", "aa.bb:1", "1.1">>, <<>>, "tunnel", <<"abc">>)}
R(side, start, headers, head, body, outcome) ==
    [side |-> side, start |-> start, headers |-> headers, framing |-> "raw", writes |-> <<head, body>>, body |-> "-", outcome |-> outcome,
     encoding |-> "", marks |-> 0, damage |-> ""]
PostLine == "POST /a?b=c HTTP/1.1\r\n"
ChunkedLine == "Transfer-Encoding: chunked\r\n"
Foreign(body, outcome) == R("request", Post, <<Chunked>>, PostLine \o ChunkedLine \o CRLF, body,
                            IF outcome = <<"error">> THEN outcome ELSE <<"message", Post, <<Chunked>>, outcome>>)
Received(lines, headers) == R("request", Get, headers, "GET / HTTP/1.1\r\n" \o lines \o CRLF, "", <<"message", Get, headers, <<"">>>>)
Error == <<"error">>
Bad(head) == R("request", Get, <<>>, head, "", Error)
Raws == {Foreign("3;x=1\r\nabc\r\n0\r\n\r\n", <<"abc">>), Foreign("03\r\nabc\r\n00\r\n\r\n", <<"abc">>), Foreign("A\r\n0123456789\r\n0\r\n\r\n", <<"0123456789">>),
         Foreign("x\r\n", Error), Foreign("\r\n", Error), Foreign("-3\r\n", Error), Foreign("+3\r\n", Error), Foreign("0x3\r\n", Error), Foreign("1_0\r\n", Error),
         Foreign("3\r\nabcd\r", Error), Foreign("3\r\nabc\n\n", Error), Foreign("0\r\nab", Error),
         Received("X:a\r\n", << <<"X", "a">> >>), Received("X: a\r\n b\r\n\tc\r\nY: d\r\n", << <<"X", "a b c">>, <<"Y", "d">> >>),
         Received("X:  a  \r\nx: b\r\n", << <<"X", "a">>, <<"X", "b">> >>), Received("X:\r\n", << <<"X", "">> >>),
         Bad("GET /\r\n\r\n"), Bad("GET / HTTP/1.1\r\nno colon\r\n\r\n"), Bad("GET / HTTP/1.1\r\n: x\r\n\r\n"),
         Bad("GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n"), Bad("GET / HTTP/1.1\r\nContent-Length: -1\r\n\r\n"), Bad("GET / HTTP/1.1\r\nContent-Length: +1\r\n\r\n")}
O(side, framing, encoding, writes, damage) ==
    LET headers == (CASE framing = "chunked" -> <<Chunked>> [] framing = "length" -> << <<"Content-Length", "$">> >> [] OTHER -> <<>>)
                   \o (IF encoding = "" THEN <<>> ELSE << <<"Content-Encoding", encoding>> >>)
    IN [side |-> side, start |-> IF side = "request" THEN Post ELSE Okay, headers |-> headers, framing |-> framing, writes |-> writes, body |-> "opaque",
        outcome |-> IF damage = "" THEN <<>> ELSE Error, encoding |-> encoding,
        marks |-> IF damage = "unknown" THEN 0 ELSE IF damage = "garbage" THEN 1 ELSE Marks, damage |-> damage]
Opaques == {O(side, "chunked", e, w, "") : side \in {"request", "response"}, e \in {"gzip", "deflate", "identity"}, w \in {<<>>, <<"short">>, <<"large", "short">>}}
    \cup {O("response", "eof", e, w, "") : e \in {"gzip", "deflate"}, w \in {<<"short">>, <<"zeros", "large">>}}
    \cup {O("response", "length", e, w, "") : e \in {"gzip", "deflate", "Deflate", "identity", ""}, w \in {<<"short">>, <<"large", "zeros">>}}
    \cup {O("response", f, e, <<"short", "large">>, d) : f \in {"chunked", "length"}, e \in {"gzip", "deflate"}, d \in {"cut", "garbage"}}
    \cup {O("response", "chunked", "other", <<"short">>, "unknown")}
(* the property: nothing is delivered but what was sent, and it is all delivered once it arrived *)
InOrder == \A i \in 1..done : LET o == All(arrived, ended)[i] IN o = Error \/ (i <= Len(sent) /\ (o = Outcome(sent[i]) \/ (EndsAtEof(sent[i]) /\ ended)))
Complete == mode # "" => done = Len(All(arrived, ended))
=============================================================================
