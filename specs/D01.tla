-------------------------------- MODULE D01 --------------------------------
(* A dictionary whose keys have one or more distinct values.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Values, MaxPairs, MaxGiven,
          FoldsCase      \* whether the keys "A" and "a" are the same
VARIABLES d,             \* sequence of <<key, values>> in the order the keys came
          act
vars == <<d>>
St == d
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]

Fold(k) == IF FoldsCase THEN CASE k = "A" -> "a" [] k = "B" -> "b" [] OTHER -> k ELSE k
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Has(e, k) == \E i \in 1..Len(e) : Fold(e[i][1]) = Fold(k)
At(e, k) == CHOOSE i \in 1..Len(e) : Fold(e[i][1]) = Fold(k)
All(e, k) == e[At(e, k)][2]
Without(e, i) == SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e))
Add(e, k, v) == IF ~Has(e, k) THEN Append(e, <<k, <<v>>>>)
                ELSE IF In(v, All(e, k)) THEN e
                ELSE [e EXCEPT ![At(e, k)] = <<@[1], Append(@[2], v)>>]
DropFirst(e, k) == IF Len(All(e, k)) = 1 THEN Without(e, At(e, k))
                   ELSE [e EXCEPT ![At(e, k)] = <<@[1], Tail(@[2])>>]
RECURSIVE AddAll(_, _), Pairs(_), Overwritten(_)
AddAll(e, ps) == IF ps = <<>> THEN e ELSE AddAll(Add(e, ps[1][1], ps[1][2]), Tail(ps))
Pairs(e) == IF e = <<>> THEN <<>>
            ELSE [i \in 1..Len(e[1][2]) |-> <<e[1][1], e[1][2][i]>>] \o Pairs(Tail(e))
(* an ordinary dictionary made of the pairs, as pairs *)
Overwritten(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET before == Overwritten(SubSeq(ps, 1, Len(ps) - 1))
           p == ps[Len(ps)]
       IN IF \E i \in 1..Len(before) : before[i][1] = p[1]
          THEN [i \in 1..Len(before) |-> IF before[i][1] = p[1] THEN p ELSE before[i]]
          ELSE Append(before, p)
(* a case sensitive multi value dictionary made of the pairs, as pairs *)
SensitiveAdd(e, p) == IF \E i \in 1..Len(e) : e[i][1] = p[1]
                      THEN [i \in 1..Len(e) |-> IF e[i][1] = p[1] /\ ~In(p[2], e[i][2]) THEN <<e[i][1], Append(e[i][2], p[2])>>
                                                ELSE e[i]]
                      ELSE Append(e, <<p[1], <<p[2]>>>>)
RECURSIVE Sensitive(_, _)
Sensitive(e, ps) == IF ps = <<>> THEN e ELSE Sensitive(SensitiveAdd(e, ps[1]), Tail(ps))
Made(how, ps) == CASE how = "pairs" -> AddAll(<<>>, ps)
                   [] how = "dictionary" -> AddAll(<<>>, Overwritten(ps))
                   [] how = "multi" -> AddAll(<<>>, Pairs(Sensitive(<<>>, ps)))
                   [] how = "same" -> AddAll(<<>>, ps)
Given == UNION {[1..n -> Keys \X Values] : n \in 0..MaxGiven}
Fits(e) == Len(Pairs(e)) <= MaxPairs

ObOf(e) ==
  [pairs |-> Pairs(e), length |-> Len(e), keys |-> [i \in 1..Len(e) |-> e[i][1]],
   all |-> [k \in Keys |-> IF Has(e, k) THEN All(e, k) ELSE <<>>],
   has |-> [k \in Keys |-> Has(e, k)],
   one |-> [k \in Keys |-> IF Has(e, k) THEN All(e, k)[1] ELSE "-"],
   last |-> [i \in 1..Len(e) |-> <<e[i][1], e[i][2][Len(e[i][2])]>>],
   pair |-> [k \in Keys |-> [v \in Values |-> Has(e, k) /\ In(v, All(e, k))]],
   value |-> [v \in Values |-> \E i \in 1..Len(e) : In(v, e[i][2])]]
Ob == ObOf(d)
Init == d = <<>> /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]

Make(how, ps) == d = <<>> /\ d' = Made(how, ps) /\ Fits(d') /\ Did("make", <<how, ps>>, "-")
Set(k, v) == d' = Add(d, k, v) /\ Fits(d') /\ Did("set", <<k, v>>, "-")
SetDefault(k, v) == d' = (IF Has(d, k) THEN d ELSE Add(d, k, v)) /\ Fits(d')
                    /\ Did("setdefault", <<k, v>>, IF Has(d, k) THEN All(d, k)[1] ELSE v)
Extend(how, ps) == d' = (IF how = "dictionary" THEN AddAll(d, Overwritten(ps)) ELSE AddAll(d, Pairs(Sensitive(<<>>, ps)))) /\ Fits(d')
                   /\ Did("extend", <<how, ps>>, "-")
Get(k) == d' = d /\ Did("get", <<k>>, IF Has(d, k) THEN All(d, k)[1] ELSE "key error")
Delete(k) == IF Has(d, k) THEN d' = DropFirst(d, k) /\ Did("delete", <<k>>, "-") ELSE d' = d /\ Did("delete", <<k>>, "key error")
PopOne(k, default) ==
  IF Has(d, k) THEN d' = DropFirst(d, k) /\ Did("pop_one", <<k, default>>, All(d, k)[1])
  ELSE d' = d /\ Did("pop_one", <<k, default>>, IF default THEN "default" ELSE "key error")
PopAll(k, default) ==
  IF Has(d, k) THEN d' = Without(d, At(d, k)) /\ Did("pop_all", <<k, default>>, All(d, k))
  ELSE d' = d /\ Did("pop_all", <<k, default>>, IF default THEN "default" ELSE "key error")
PopItem == IF d = <<>> THEN d' = d /\ Did("popitem", <<>>, "key error")
           ELSE LET e == d[Len(d)] IN d' = DropFirst(d, e[1]) /\ Did("popitem", <<>>, <<e[1], e[2][1]>>)
Clear == d' = <<>> /\ Did("clear", <<>>, "-")
Copy(how) == d' = d /\ Did("copy", <<how>>, ObOf(d))
(* equal to what has the same keys, and each key has the same values in the same order *)
SameAs(e, f) == Len(e) = Len(f) /\ \A i \in 1..Len(e) : Has(f, e[i][1]) /\ All(f, e[i][1]) = e[i][2]
Equals(how, ps) == d' = d /\ Did("equals", <<how, ps>>, LET o == Made(how, ps) IN <<SameAs(d, o), ~SameAs(d, o)>>)
Next == \/ \E k \in Keys : (\E v \in Values : Set(k, v) \/ SetDefault(k, v)) \/ Get(k) \/ Delete(k)
                             \/ \E b \in BOOLEAN : PopOne(k, b) \/ PopAll(k, b)
        \/ \E ps \in Given : (\E how \in {"pairs", "dictionary", "multi", "same"} : Make(how, ps) \/ (how # "multi" /\ Equals(how, ps)))
                               \/ \E how \in {"dictionary", "multi"} : Extend(how, ps)
        \/ PopItem \/ Clear \/ \E how \in {"copy", "new", "pairs", "shallow", "deep", "pickle"} : Copy(how)
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Wellformed == /\ \A i \in 1..Len(d) : d[i][2] # <<>> /\ Distinct(d[i][2])
              /\ \A i, j \in 1..Len(d) : i # j => Fold(d[i][1]) # Fold(d[j][1])
OneKeyAtATime == [][act'.op \in {"set", "setdefault", "delete", "pop_one", "pop_all"} =>
                     \A k \in Keys : Fold(k) # Fold(act'.a[1]) => Ob'.all[k] = Ob.all[k]]_<<vars, act>>
NothingLost == [][act'.op \in {"set", "setdefault", "extend", "make"} =>
                   \A k \in Keys : SubSeq(Ob'.all[k], 1, Len(Ob.all[k])) = Ob.all[k]]_<<vars, act>>
=============================================================================
