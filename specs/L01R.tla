------------------------------- MODULE L01R -------------------------------
(* Readers and writers of file descriptors registered at the event loop.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fds, Kinds
VARIABLES z, act
Ways == {"r", "w"}
None == "-"
(* reg[f][w]: None or <<number, kind>> of the callback; the numbers tell a callback from the one which replaced it *)
Start == [reg |-> [f \in Fds |-> [w \in Ways |-> <<>>]], n |-> 0, log |-> <<>>]
Has(y, f, w) == y.reg[f][w] # <<>>
Set(y, f, w, v) == [y EXCEPT !.reg[f][w] = v]
(* every other one of the way is replaced *)
Replace(y, f, w, way) ==
  [y EXCEPT !.reg = [g \in Fds |-> IF y.reg[g][way] = <<>> \/ (g = f /\ way = w) THEN @[g]
                                   ELSE [@[g] EXCEPT ![way] = <<2 + y.reg[g][way][1], "plain">>]]]
Renumber(y) == [y EXCEPT !.reg = [f \in Fds |-> [w \in Ways |-> IF @[f][w] = <<>> THEN <<>> ELSE <<@[f][w][1] % 2, @[f][w][2]>>]]]
(* one cycle: `got` is the order in which the selector gives the events *)
Do(y, e) == (* e = <<f, w, the callback registered when the event came>> *)
  IF y.reg[e[1]][e[2]] # e[3] THEN y  \* was removed or replaced in the meantime
  ELSE LET r == [y EXCEPT !.log = Append(@, <<e[1], e[2], e[3][1]>>)]
       IN CASE e[3][2] = "remove itself" -> Set(r, e[1], e[2], <<>>)
            [] e[3][2] = "remove writers" -> [r EXCEPT !.reg = [f \in Fds |-> [@[f] EXCEPT !["w"] = <<>>]]]
            [] e[3][2] = "remove readers" -> [r EXCEPT !.reg = [f \in Fds |-> [@[f] EXCEPT !["r"] = <<>>]]]
            [] e[3][2] = "replace readers" -> Replace(r, e[1], e[2], "r")
            [] e[3][2] = "replace writers" -> Replace(r, e[1], e[2], "w")
            [] OTHER -> r
RECURSIVE RunAll(_, _)
RunAll(y, q) == IF q = <<>> THEN y ELSE RunAll(Do(y, Head(q)), Tail(q))
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Init == z = Start /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Add(f, w, k) == /\ z' = [Set(z, f, w, <<z.n, k>>) EXCEPT !.n = 1 - @] /\ (Has(z, f, w) => z.reg[f][w][1] # z.n)
                /\ Did("add", <<f, w, k, z.n>>, "-")
Remove(f, w) == z' = Set(z, f, w, <<>>) /\ Did("remove", <<f, w>>, Has(z, f, w))
Orders == IF Cardinality(Fds) = 1 THEN {<<f>> : f \in Fds} ELSE {<<f, g>> : f \in Fds, g \in Fds} \ {<<f, f>> : f \in Fds}
(* the file descriptors become ready, in some order *)
Events(order, way) ==
  LET Of(f) == (IF way \in {"r", "rw"} /\ Has(z, f, "r") THEN <<<<f, "r", z.reg[f]["r"]>>>> ELSE <<>>)
               \o (IF way \in {"w", "rw"} /\ Has(z, f, "w") THEN <<<<f, "w", z.reg[f]["w"]>>>> ELSE <<>>)
  IN IF Len(order) = 1 THEN Of(order[1]) ELSE Of(order[1]) \o Of(order[2])
Come(order, way) == LET y == RunAll(z, Events(order, way))
                    IN z' = [Renumber(y) EXCEPT !.log = <<>>] /\ Did("come", <<order, way>>, y.log)
Next == \/ \E f \in Fds, w \in Ways : Remove(f, w) \/ \E k \in Kinds : Add(f, w, k)
        \/ \E o \in Orders, w \in {"r", "w", "rw"} : Come(o, w)
Spec == Init /\ [][Next]_<<z, act>>
St == z
View == z
Ob == [f \in Fds |-> [w \in Ways |-> Has(z, f, w)]]
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
OnlyRegistered == [][act'.op = "come" => \A i \in 1..Len(act'.r) : z.reg[act'.r[i][1]][act'.r[i][2]] # <<>>
                                           /\ z.reg[act'.r[i][1]][act'.r[i][2]][1] = act'.r[i][3]]_<<z, act>>
Once == [][act'.op = "come" => \A i, j \in 1..Len(act'.r) : i # j => act'.r[i] # act'.r[j]]_<<z, act>>
=============================================================================
