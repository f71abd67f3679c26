-------------------------------- MODULE F03S --------------------------------
(* Shields over a future or over a task; a task awaiting one of the shields.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shields, IsTask   \* names of shields; whether the shielded one is a task (awaiting the future "f")
VARIABLES z, act
Pend == <<"pending">>
(* p: the protected future (f itself, or the task); sh: shields ("none" before creation); m: a task awaiting shield 1 *)
Start == [f |-> Pend, p |-> Pend, sh |-> [k \in Shields |-> <<"none">>], m |-> <<"none">>, ready |-> <<>>, same |-> {}]
As(o) == IF o[1] = "cancelled with" THEN <<"error", o[2]>> ELSE o
(* what awaits p: its live shields; handled by the loop one after an other *)
SettleP(y, o) == [y EXCEPT !.p = o, !.f = IF IsTask THEN @ ELSE o,
                           !.ready = @ \o <<"mirror">>]
SettleF(y, o) == IF y.f # Pend THEN y ELSE IF IsTask THEN [y EXCEPT !.f = o, !.ready = Append(@, "p")] ELSE SettleP(y, o)
SettleS(y, k, o) == [y EXCEPT !.sh[k] = o, !.ready = IF k = "s" /\ y.m = Pend THEN Append(@, "m") ELSE @]
RECURSIVE Mirror(_, _)
Mirror(y, ks) == IF ks = {} THEN y
                 ELSE LET k == CHOOSE x \in ks : TRUE
                      IN Mirror(IF y.sh[k] = Pend THEN SettleS(y, k, y.p) ELSE y, ks \ {k})
Handle(y, h) == CASE h = "p" -> SettleP(y, As(y.f))
                  [] h = "mirror" -> Mirror(y, Shields)
                  [] h = "m" -> [y EXCEPT !.m = IF y.sh["s"][1] = "cancelled with" THEN <<"error", y.sh["s"][2]>> ELSE y.sh["s"]]
RECURSIVE DrainOf(_)
DrainOf(y) == IF y.ready = <<>> THEN y ELSE DrainOf(Handle([y EXCEPT !.ready = Tail(@)], Head(y.ready)))
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Init == z = Start /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
(* shielding what is done already gives the very same future *)
Shield(k) == /\ z.sh[k] = <<"none">>
             /\ IF z.p = Pend THEN z' = [z EXCEPT !.sh[k] = Pend] /\ Did("shield", <<k>>, "new")
                ELSE z' = [z EXCEPT !.sh[k] = z.p, !.same = @ \cup {k}] /\ Did("shield", <<k>>, "same")
SetF == z.f = Pend /\ z.ready = <<>> /\
        \/ z' = SettleF(z, <<"result", "v">>) /\ Did("set_result", <<>>, "-")
        \/ z' = SettleF(z, <<"error", "e1">>) /\ Did("set_exception", <<>>, "-")
        \/ z' = SettleF(z, <<"cancelled">>) /\ Did("cancel", <<>>, "-")
        \/ z' = SettleF(z, <<"cancelled with", "e1">>) /\ Did("cancel_with", <<>>, "-")
CancelShield(k) == /\ z.sh[k] # <<"none">>
                   /\ IF z.sh[k] = Pend THEN z' = SettleS(z, k, <<"cancelled">>) /\ Did("cancel_shield", <<k>>, "1")
                      ELSE UNCHANGED z /\ Did("cancel_shield", <<k>>, "0")
TimeoutShield(k) == /\ z.sh[k] = Pend /\ z' = SettleS(z, k, <<"cancelled with", "timeout">>) /\ Did("timeout_shield", <<k>>, "1")
AwaitS == /\ z.sh["s"] = Pend /\ z.m = <<"none">> /\ z.ready = <<>> /\ z' = [z EXCEPT !.m = Pend] /\ Did("await", <<>>, "-")
CancelM == /\ z.m = Pend /\ z.sh["s"] = Pend /\ z' = SettleS(z, "s", <<"cancelled">>) /\ Did("cancel_task", <<>>, "1")
Drain == z' = DrainOf(z) /\ Did("drain", <<>>, "-")
Next == (\E k \in Shields : Shield(k) \/ CancelShield(k) \/ TimeoutShield(k)) \/ SetF \/ AwaitS \/ CancelM \/ Drain
Spec == Init /\ [][Next]_<<z, act>>
St == z
Ob == [f |-> z.f, p |-> z.p, sh |-> z.sh, m |-> z.m]
View == z
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
Independent == [][act'.op \in {"cancel_shield", "timeout_shield", "cancel_task"} => z'.f = z.f /\ z'.p = z.p]_<<z, act>>
Mirrors == z.ready = <<>> /\ z.p # Pend => \A k \in Shields : z.sh[k] # Pend
Settled == [][\A k \in Shields : z.sh[k] \notin {Pend, <<"none">>} => z'.sh[k] = z.sh[k]]_<<z, act>>
=============================================================================
