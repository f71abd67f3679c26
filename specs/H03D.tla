-------------------------------- MODULE H03D --------------------------------
(* The date a cookie expires at: tokens in any order; the first fitting one is taken for each part (RFC 6265 5.1.1).     *)
(* A token is <<kind, text, number(s)>>: a time, a number of as many digits, a month, or an other word.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes, Times, Numbers, Months, Words
VARIABLES tokens, act
vars == <<tokens>>
St == tokens
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
OfKind(kind) == CASE kind = "time" -> Times [] kind = "number" -> Numbers [] kind = "month" -> Months [] OTHER -> Words
Nothing == [time |-> <<>>, day |-> -1, month |-> -1, year |-> -1]
Step(p, t) ==
    IF t[1] = "time" /\ p.time = <<>> THEN [p EXCEPT !.time = t[3]]
    ELSE IF t[1] = "number" /\ t[4] <= 2 /\ p.day < 0 THEN [p EXCEPT !.day = t[3]]
    ELSE IF t[1] = "month" /\ p.month < 0 THEN [p EXCEPT !.month = t[3]]
    ELSE IF t[1] = "number" /\ t[4] >= 2 /\ t[4] <= 4 /\ p.year < 0 THEN [p EXCEPT !.year = t[3]]
    ELSE p
RECURSIVE Fold(_, _)
Fold(p, l) == IF l = <<>> THEN p ELSE Fold(Step(p, l[1]), Tail(l))
Full(y) == IF y >= 70 /\ y <= 99 THEN 1900 + y ELSE IF y >= 0 /\ y <= 69 THEN 2000 + y ELSE y
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(m, y) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Parsed(l) == LET p == Fold(Nothing, l)  y == Full(p.year) IN
    IF p.time = <<>> \/ p.day < 1 \/ p.month < 0 \/ p.year < 0 THEN <<>>
    ELSE IF y < 1601 \/ p.day > Days(p.month, y) \/ p.time[1] > 23 \/ p.time[2] > 59 \/ p.time[3] > 59 THEN <<>>
    ELSE <<y, p.month, p.day>> \o p.time
Ob == "-"
Init == tokens = <<>> /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Texts(l) == [i \in 1..Len(l) |-> l[i][2]]
RECURSIVE Fillings(_)
Fillings(shape) == IF shape = <<>> THEN {<<>>} ELSE {<<x>> \o l : x \in OfKind(shape[1]), l \in Fillings(Tail(shape))}
Expires == \E shape \in Shapes : \E l \in Fillings(shape) :
    tokens' = tokens /\ Did("expires", <<Texts(l), Parsed(l)>>, IF Parsed(l) = <<>> THEN "does not expire" ELSE "expires then")
Next == Expires
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
AllOrders == LET T == "time"  N == "number"  M == "month"  W == "word" IN
    {<<W, N, M, N, T, W>>, <<M, N, T, N>>, <<T, N, M, N>>, <<N, M, T, N>>, <<N, N, M, T>>, <<N, T, M, N>>,
     <<N, M, N>>, <<N, M, T>>, <<N, T, N>>, <<M, N, T>>, <<N, M, M, N, T>>, <<N, N, M, N, T>>}
ManyTimes == {<<"time", "10:20:30", <<10, 20, 30>>>>, <<"time", "1:2:3", <<1, 2, 3>>>>, <<"time", "24:00:00", <<24, 0, 0>>>>,
              <<"time", "23:60:00", <<23, 60, 0>>>>, <<"time", "23:59:60", <<23, 59, 60>>>>}
ManyNumbers == {<<"number", "31", 31, 2>>, <<"number", "30", 30, 2>>, <<"number", "29", 29, 2>>, <<"number", "5", 5, 1>>, <<"number", "00", 0, 2>>,
                <<"number", "69", 69, 2>>, <<"number", "70", 70, 2>>, <<"number", "2024", 2024, 4>>, <<"number", "2100", 2100, 4>>,
                <<"number", "1600", 1600, 4>>, <<"number", "1601", 1601, 4>>, <<"number", "101", 101, 3>>}
ManyMonths == {<<"month", "Jan", 1>>, <<"month", "feb", 2>>, <<"month", "NOV", 11>>}
ManyWords == {<<"word", "Wed">>, <<"word", "GMT">>}
=============================================================================
