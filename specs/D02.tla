-------------------------------- MODULE D02 --------------------------------
(* A container of weakly held objects: its content is what an ordinary one would hold, less the entries whose objects
   have died. What the container holds inside, besides, is not visible.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Values, Objects, \* keys and values which are objects are held weakly
          Iterators, What,       \* iterators, and what they yield: "keys", "values", "items"
          Combinations,          \* names of set operations to do, only for sets
          Group                  \* the rest of the operations to do
VARIABLES alive, c, it, act
vars == <<alive, c, it>>
None == "-"
Closed == [mode |-> "closed", left |-> {}, hold |-> {}, what |-> None]
Fun(S, full) == [x \in full |-> x \in S]
St == [alive |-> alive, c |-> c,
       it |-> [i \in Iterators |-> [mode |-> it[i].mode, what |-> it[i].what, left |-> Fun(it[i].left, Keys), hold |-> Fun(it[i].hold, Objects)]]]
Present == {k \in Keys : c[k] # None}
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
ContentOf(e) == [k \in Keys |-> e[k]]
Ob == [c |-> c, length |-> Cardinality(Present), open |-> \E i \in Iterators : it[i].mode # "closed", alive |-> alive]
Init == /\ alive = [o \in Objects |-> TRUE] /\ c = [k \in Keys |-> None] /\ it = [i \in Iterators |-> Closed]
        /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Usable(x) == IF x \in Objects THEN alive[x] ELSE TRUE
(* iterators opened earlier are useless, as the ordinary containers' ones are, once something was added or removed *)
Broken == it' = [i \in Iterators |-> IF it[i].mode = "closed" THEN Closed ELSE [it[i] EXCEPT !.mode = "broken", !.left = {}]]
Became(e, structural) == c' = e /\ (IF structural THEN Broken ELSE UNCHANGED it) /\ UNCHANGED alive
ValueOf(k) == c[k]

Set(k, v) == Usable(k) /\ Usable(v) /\ Became([c EXCEPT ![k] = v], c[k] = None) /\ Did("set", <<k, v>>, "-")
SetDefault(k, v) == /\ Usable(k) /\ Usable(v)
                    /\ Became(IF c[k] = None THEN [c EXCEPT ![k] = v] ELSE c, c[k] = None)
                    /\ Did("setdefault", <<k, v>>, IF c[k] = None THEN v ELSE c[k])
Delete(k) == /\ Usable(k) /\ Became([c EXCEPT ![k] = None], TRUE) /\ Did("delete", <<k>>, IF c[k] = None THEN "key error" ELSE "-")
Pop(k, d) == /\ Usable(k) /\ Became([c EXCEPT ![k] = None], TRUE)
             /\ Did("pop", <<k, d>>, IF c[k] # None THEN c[k] ELSE IF d THEN "default" ELSE "key error")
PopItem == \/ /\ Present = {} /\ Became(c, TRUE) /\ Did("popitem", <<>>, "key error")
           \/ \E k \in Present : Became([c EXCEPT ![k] = None], TRUE) /\ Did("popitem", <<>>, <<k, c[k]>>)
Clear == Became([k \in Keys |-> None], TRUE) /\ Did("clear", <<>>, "-")
Update(k, v, l, w) == /\ k # l /\ Usable(k) /\ Usable(v) /\ Usable(l) /\ Usable(w)
                      /\ LET e == [c EXCEPT ![k] = v, ![l] = w] IN Became(e, c[k] = None \/ c[l] = None)
                      /\ Did("update", <<k, v, l, w>>, "-")
Die(o) == /\ alive[o] /\ \A i \in Iterators : o \notin it[i].hold
          /\ alive' = [alive EXCEPT ![o] = FALSE]
          /\ c' = [k \in Keys |-> IF k = o \/ c[k] = o THEN None ELSE c[k]]
          /\ UNCHANGED it /\ Did("die", <<o>>, "-")
Revive(o) == ~alive[o] /\ alive' = [alive EXCEPT ![o] = TRUE] /\ UNCHANGED <<c, it>> /\ Did("revive", <<o>>, "-")
Open(i, w) == /\ it[i].mode = "closed" /\ it' = [it EXCEPT ![i] = [mode |-> "open", left |-> Present, hold |-> {}, what |-> w]]
              /\ Present # {} /\ UNCHANGED <<alive, c>> /\ Did("open", <<i, w>>, "-")
(* nothing runs of an iterator before it is asked for its first, so it is asked when it is opened *)
Yielded(i, k) == CASE it[i].what = "keys" -> k [] it[i].what = "values" -> c[k] [] OTHER -> <<k, c[k]>>
Next_(i) == /\ it[i].mode # "closed" /\ UNCHANGED <<alive, c>>
            /\ IF it[i].mode = "broken" THEN it' = [it EXCEPT ![i] = Closed] /\ Did("next", <<i>>, "any")
               ELSE LET left == it[i].left \cap Present
                    IN IF left = {} THEN it' = [it EXCEPT ![i] = Closed] /\ Did("next", <<i>>, "end")
                       ELSE \E k \in left :
                              /\ it' = [it EXCEPT ![i].left = left \ {k}, ![i].hold = (CASE it[i].what = "keys" -> {k} [] it[i].what = "values" -> {c[k]} [] OTHER -> {k, c[k]}) \cap Objects]
                              /\ Did("next", <<i>>, Yielded(i, k))
Close(i) == it[i].mode # "closed" /\ it' = [it EXCEPT ![i] = Closed] /\ UNCHANGED <<alive, c>> /\ Did("close", <<i>>, "-")
Copy(how) == UNCHANGED vars /\ Did("copy", <<how>>, c)

(* operations of sets *)
AsContent(T) == [k \in Keys |-> IF k \in T THEN k ELSE None]
ResultOf(name, A, B) ==
  CASE name \in {"and", "iand", "intersection", "intersection_update", "rand"} -> A \cap B
    [] name \in {"or", "ior", "union", "update", "ror"} -> A \cup B
    [] name \in {"sub", "isub", "difference", "difference_update"} -> A \ B
    [] name = "rsub" -> B \ A
    [] name \in {"xor", "ixor", "symmetric_difference", "symmetric_difference_update", "rxor"} -> (A \ B) \cup (B \ A)
Relation(name, A, B) ==
  CASE name = "eq" -> A = B [] name = "ne" -> A # B [] name \in {"le", "issubset"} -> A \subseteq B
    [] name = "lt" -> A \subseteq B /\ A # B [] name \in {"ge", "issuperset"} -> B \subseteq A
    [] name = "gt" -> B \subseteq A /\ A # B [] name = "isdisjoint" -> A \cap B = {}
InPlace == {"iand", "intersection_update", "ior", "update", "isub", "difference_update", "ixor", "symmetric_difference_update"}
Relations == {"eq", "ne", "le", "issubset", "lt", "ge", "issuperset", "gt", "isdisjoint"}
Combine(name, how, T) ==
  /\ \A o \in T : alive[o]
  /\ how = "itself" => T = Present
  /\ how = "dead in it" => \E o \in Objects : alive[o] /\ o \notin T
  /\ LET A == Present
     IN IF name \in Relations THEN UNCHANGED vars /\ Did("combine", <<name, how, Fun(T, Keys)>>, Relation(name, A, T))
        ELSE IF name \in InPlace
        THEN Became(AsContent(ResultOf(name, A, T)), ResultOf(name, A, T) # A) /\ Did("combine", <<name, how, Fun(T, Keys)>>, "-")
        ELSE UNCHANGED vars /\ Did("combine", <<name, how, Fun(T, Keys)>>, AsContent(ResultOf(name, A, T)))

Next == \/ \E k \in Keys : Delete(k) \/ (\E d \in BOOLEAN : Pop(k, d))
                            \/ \E v \in Values : ((Values = {"in"} => v = "in") /\ (Set(k, v) \/ SetDefault(k, v)))
        \/ ("update" \in Group /\ \E k, l \in Keys : \E v, w \in Values : Update(k, v, l, w))
        \/ PopItem \/ Clear
        \/ \E o \in Objects : Die(o) \/ Revive(o)
        \/ \E i \in Iterators : Next_(i) \/ Close(i) \/ \E w \in What : Open(i, w)
        \/ ("copy" \in Group /\ \E how \in {"copy", "new", "shallow"} : Copy(how))
SetNext == \/ \E k \in Keys : (Set(k, k) \/ Delete(k) \/ Pop(k, TRUE))
           \/ PopItem \/ Clear
           \/ \E o \in Objects : Die(o) \/ Revive(o)
           \/ \E i \in Iterators : Next_(i) \/ Close(i) \/ Open(i, "keys")
           \/ ("copy" \in Group /\ \E how \in {"copy", "new", "shallow"} : Copy(how))
           \/ \E name \in Combinations : \E T \in SUBSET Keys : \E how \in {"weak", "set", "list", "itself"} : Combine(name, how, T)
Spec == Init /\ [][Next]_<<vars, act>>
SetSpec == Init /\ [][SetNext]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
OnlyLive == \A k \in Present : Usable(k) /\ Usable(c[k])
NeverLost == [][act'.op \in {"open", "next", "close", "revive", "copy"} => c' = c]_<<vars, act>>
OnlyTheDead == [][act'.op = "die" => \A k \in Keys : c'[k] # c[k] => c'[k] = None /\ (k = act'.a[1] \/ c[k] = act'.a[1])]_<<vars, act>>
=============================================================================
