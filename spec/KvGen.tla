--------------------------------- MODULE KvGen ---------------------------------
(* Bounded sequential provider whose transitions become walks on the real code.   *)
EXTENDS Kv, Json
CONSTANTS Items, Vals
VARIABLE s
E(op, i, x) == PrintT("@E " \o ToJson([f |-> ToString(s), t |-> ToString(s'), l |-> [op |-> op, item |-> i, val |-> x]]))
Init == s = [i \in Items |-> Absent]
Next == \E i \in Items, op \in {"Put", "Update", "Get", "Delete"} :
          \E x \in IF op \in {"Put", "Update"} THEN Vals ELSE {""} :
            s' = [s EXCEPT ![i] = Effect(@, op, x).v] /\ E(op, i, x)
Spec == Init /\ [][Next]_s
===============================================================================
