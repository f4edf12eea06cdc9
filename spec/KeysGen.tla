--------------------------------- MODULE KeysGen ---------------------------------
(* Bounded histories of several instances with different keys over one storage.        *)
EXTENDS Keys, Json
CONSTANTS Ops, Own, MaxList   \* Own: the kinds of keys these operations use
VARIABLE s
One == [k \in Kinds |-> 1]
Insts == {One} \cup {[One EXCEPT ![k] = 2] : k \in Own} \cup {[k \in Kinds |-> 2]}
E(i, op, n) == PrintT("@E " \o ToJson([f |-> ToString(s), t |-> ToString(s'), l |-> [op |-> op, k |-> i, n |-> n]]))
Init == s = Empty
Next == \E i \in Insts, op \in Ops :
   \E n \in IF op \in {"Identity", "NewGroup"} THEN 1..Len(s.logins) ELSE IF op = "Open" THEN 1..Len(s.toks) ELSE {0} :
     /\ op = "Add" => Len(s.lists) < MaxList
     /\ op = "Login" /\ ReadsUser(s, i) => Len(s.logins) < MaxList
     /\ op = "CreateToken" => Len(s.toks) < MaxList
     /\ s' = After(s, i, op, n, "")
     /\ E(i, op, n)
Spec == Init /\ [][Next]_s
=============================================================================
