------------------------------- MODULE IndexGen -------------------------------
(* Bounded sequential index whose transitions become walks on the real code.   *)
EXTENDS Index, Json
CONSTANTS Kws, Ids, MaxLen
VARIABLE s
P(auth, sc) == [auth |-> auth, sc |-> sc]
Full == P(TRUE, {"Index", "Decrypt"})
Refused == {P(FALSE, {"Index"}), P(TRUE, {"Decrypt", "Encrypt"}), P(TRUE, {})}
E(op, c, k, i) == PrintT("@E " \o ToJson([f |-> ToString(s), t |-> ToString(s'), l |-> [op |-> op, auth |-> c.auth, sc |-> c.sc, kw |-> k, id |-> i]]))
Init == s = [k \in Kws |-> <<>>]
Next == \E k \in Kws :
  \/ \E i \in Ids : Len(s[k]) < MaxLen /\ s' = [s EXCEPT ![k] = AfterAdd(@, i)] /\ E("Add", Full, k, i)
  \/ \E i \in Ids : s' = [s EXCEPT ![k] = AfterDelete(@, i)] /\ E("Delete", Full, k, i)
  \/ s' = s /\ E("Search", Full, k, "")
  \/ \E c \in Refused, op \in {"Add", "Delete", "Search"} : s' = s /\ E(op, c, k, IF op = "Search" THEN "" ELSE CHOOSE i \in Ids : TRUE)
Spec == Init /\ [][Next]_s
=============================================================================
