-------------------------------- MODULE Z01 --------------------------------
(* A streamed archive. A file is <<name, chunks of its content, compression method, modification time>>. The archive *)
(* which is read back holds one record for each, under `used`: the names in the archive. A name which is chosen in    *)
(* place of a taken one is any that is not taken; "other" stands for all the names which no file is given.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Contents, Methods, Times, MaxFiles, Deduplicated, Many
VARIABLES files, used, many, act
vars == <<files, used, many>>
St == [files |-> files, used |-> used, many |-> many]
Did(op, a, r) == act' = [op |-> op, a |-> a, r |-> r]
Taken == {used[i] : i \in 1..Len(used)} \ {"other"}
RECURSIVE Whole(_)
Whole(chunks) == IF chunks = <<>> THEN "" ELSE chunks[1] \o Whole(Tail(chunks))
Ob == [names |-> used, contents |-> [i \in 1..Len(files) |-> Whole(files[i][2])],
       methods |-> [i \in 1..Len(files) |-> files[i][3]], times |-> [i \in 1..Len(files) |-> files[i][4]],
       count |-> Len(files) + many]
Init == files = <<>> /\ used = <<>> /\ many = 0 /\ act = [op |-> "init", a |-> <<>>, r |-> "-"]
Put(f, n) == files' = Append(files, f) /\ used' = Append(used, n) /\ UNCHANGED many
Add(f) == /\ Len(files) < MaxFiles /\ many = 0
          /\ IF Deduplicated /\ f[1] \in Taken
             THEN \E n \in (Names \cup {"other"}) \ Taken : Put(f, n) /\ Did("add", f, "renamed")
             ELSE Put(f, f[1]) /\ Did("add", f, "kept")
AddMany(n) == /\ many = 0 /\ many' = n /\ files = <<>> /\ UNCHANGED <<files, used>> /\ Did("add_many", <<n>>, "-")
Next == \/ \E n \in Names, c \in Contents, m \in Methods, t \in Times : Add(<<n, c, m, t>>)
        \/ \E n \in Many : AddMany(n)
Spec == Init /\ [][Next]_<<vars, act>>
View == vars
Emit == PrintT(ToJson([i |-> TLCGet("level") = 1, f |-> St, a |-> act', t |-> St', o |-> Ob']))
(* the property *)
Unique == Deduplicated => \A i, j \in 1..Len(used) : i # j /\ used[i] = used[j] => used[i] = "other"
Kept == [][act'.op = "add" /\ (~Deduplicated \/ act'.a[1] \notin Taken) => used'[Len(used')] = act'.a[1]]_<<vars, act>>
OneEach == Len(used) = Len(files)
=============================================================================
