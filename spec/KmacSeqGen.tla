------------------------------- MODULE KmacSeqGen -------------------------------
(* Sequences of calls on one MAC object: writes in pieces, Sum, Reset.             *)
EXTENDS Kmac, Json
CONSTANTS Pieces, MaxLen
VARIABLE x
E(op, c) == PrintT("@E " \o ToJson([f |-> x, t |-> x', l |-> [op |-> op, c |-> c]]))
Init == x = ""
Next == \/ \E c \in Pieces : Len(x) + Len(c) <= MaxLen /\ x' = Write(x, c) /\ E("Write", c)
        \/ \E c \in {"", "p"} : x' = x /\ E("Sum", c)
        \/ x' = x /\ E("Size", "")
        \/ x' = "" /\ E("Reset", "")
Spec == Init /\ [][Next]_x
===============================================================================
