-------------------------------- MODULE D03 --------------------------------
(* A sorted list. An element is <<order, tag>>: elements of the same order are equal, the tag tells them apart.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Orders, Tags, MaxLength, MaxGiven
VARIABLES s, reversed, act
vars == <<s, reversed>>
St == [s |-> s, reversed |-> reversed]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Elements == Orders \X Tags
Lists == UNION {[1..n -> Elements] : n \in 0..MaxGiven}
Before(rev, x, y) == IF rev THEN x > y ELSE x < y
SortedList(l, rev) == \A i, j \in 1..Len(l) : i < j => ~Before(rev, l[j][1], l[i][1])
Count(l, e) == Cardinality({i \in 1..Len(l) : l[i] = e})
InsertAt(l, i, e) == SubSeq(l, 1, i) \o <<e>> \o SubSeq(l, i + 1, Len(l))
RemoveAt(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
(* every sorted arrangement in which one more element can be put *)
Put(l, e, rev) == {m \in {InsertAt(l, i, e) : i \in 0..Len(l)} : SortedList(m, rev)}
RECURSIVE PutAll(_, _, _)
PutAll(ls, es, rev) == IF es = <<>> THEN ls ELSE PutAll(UNION {Put(l, es[1], rev) : l \in ls}, Tail(es), rev)
Same(l, x) == {i \in 1..Len(l) : l[i][1] = x}
(* how many elements are before an element of this order, by looking at each *)
Position(l, x, rev) == Cardinality({i \in 1..Len(l) : Before(rev, l[i][1], x)})
Reverse(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
Ob == [list |-> s, reversed |-> reversed,
       at |-> [x \in Orders |-> <<Position(s, x, reversed), Same(s, x) # {},
                                   IF Same(s, x) # {} THEN Position(s, x, reversed) ELSE -1,
                                   Cardinality(Same(s, x))>>]]
Init == s = <<>> /\ reversed = FALSE /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Make(l, rev) == /\ s = <<>> /\ reversed' = rev /\ s' \in PutAll({<<>>}, l, rev) /\ Did("make", <<l, rev>>, "-")
Add(e) == /\ IF Same(s, e[1]) # {} THEN \E i \in Same(s, e[1]) : s' = [s EXCEPT ![i] = e]
             ELSE Len(s) < MaxLength /\ s' \in Put(s, e, reversed)
          /\ UNCHANGED reversed /\ Did("add", <<e>>, "-")
Remove(e) == /\ IF Same(s, e[1]) # {} THEN \E i \in Same(s, e[1]) : s' = RemoveAt(s, i) ELSE s' = s
             /\ UNCHANGED reversed /\ Did("remove", <<e>>, "-")
Extend(how, l) == /\ Len(s) + Len(l) <= MaxLength /\ s' \in PutAll({s}, l, reversed) /\ UNCHANGED reversed
                  /\ Did("extend", <<how, l>>, "-")
ExtendItself == /\ 2 * Len(s) <= MaxLength /\ s' \in PutAll({s}, s, reversed) /\ UNCHANGED reversed
                /\ Did("extend_itself", <<>>, "-")
(* lookup by a key *)
Get(x) == /\ UNCHANGED vars
          /\ IF Same(s, x) # {} THEN \E i \in Same(s, x) : Did("get", <<x>>, s[i]) ELSE Did("get", <<x>>, "default")
Pop(x) == /\ UNCHANGED reversed
          /\ IF Same(s, x) # {} THEN \E i \in Same(s, x) : s' = RemoveAt(s, i) /\ Did("pop", <<x>>, s[i])
             ELSE s' = s /\ Did("pop", <<x>>, "default")
SetReverse(b) == /\ reversed' = b /\ (IF b = reversed THEN s' = s ELSE s' = Reverse(s)) /\ Did("set_reverse", <<b>>, "-")
(* the order of an element changes, then the list is sorted again *)
Resort(i, x) == /\ i <= Len(s) /\ UNCHANGED reversed
                /\ s' \in PutAll({<<>>}, [s EXCEPT ![i] = <<x, @[2]>>], reversed) /\ Did("resort", <<i, x>>, "-")
Copy == UNCHANGED vars /\ Did("copy", <<>>, Ob)
DeleteAt(i) == /\ i <= Len(s) /\ s' = RemoveAt(s, i) /\ UNCHANGED reversed /\ Did("delete_at", <<i>>, "-")
Next == \/ \E l \in Lists : (\E b \in BOOLEAN : Make(l, b)) \/ \E how \in {"list", "ascending", "descending", "iterator"} : Extend(how, l)
        \/ \E e \in Elements : Add(e) \/ Remove(e)
        \/ \E x \in Orders : Get(x) \/ Pop(x) \/ (\E i \in 1..MaxLength : Resort(i, x))
        \/ \E b \in BOOLEAN : SetReverse(b)
        \/ \E i \in 1..MaxLength : DeleteAt(i)
        \/ Copy \/ ExtendItself
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
Sorted == SortedList(s, reversed)
Kept == [][act'.op \in {"add", "extend", "set_reverse", "remove", "get", "pop"} =>
            \A e \in Elements : act'.op # "add" /\ (act'.op \in {"remove", "pop"} => e[1] # (IF act'.op = "pop" THEN act'.a[1] ELSE act'.a[1][1]))
                                 => Count(s', e) >= Count(s, e)]_<<vars, act>>
Replaces == [][act'.op = "add" /\ Same(s, act'.a[1][1]) # {} => Len(s') = Len(s)]_<<vars, act>>
Found == \A x \in Orders : Same(s, x) # {} => s[Position(s, x, reversed) + 1][1] = x
=============================================================================
