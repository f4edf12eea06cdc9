-------------------------------- MODULE SealsGen --------------------------------
(* Every kind of sealing call in every small state, with contents that repeat, that    *)
(* are empty, highly regular or new.                                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxList, MaxUsers
VARIABLE s
Contents == {"same", "fresh", "empty", "regular"}
E(op, c) == PrintT("@E " \o ToJson([f |-> s, t |-> s', l |-> [op |-> op, content |-> c]]))
Init == s = [o |-> 0, m |-> 0, l |-> 0, u |-> 0, g |-> 0, j |-> 0]
Next ==
  \/ \E c \in Contents : s.o = 0 /\ s' = [s EXCEPT !.o = 1, !.m = IF c = "same" THEN 1 ELSE 0] /\ E("Encrypt", c)
  \/ \E c \in Contents : s.o = 1 /\ s' = s /\ E("Update", c)
  \/ \E c \in {"same", "fresh"} : s.o = 1 /\ s' = [s EXCEPT !.m = 1] /\ E("AddGroups", c)
  \/ s.o = 1 /\ s.m = 1 /\ s' = [s EXCEPT !.m = 0] /\ E("RemoveGroups", "")
  \/ s.o = 1 /\ s' = s /\ E("Decrypt", "")
  \/ s.o = 1 /\ s' = [s EXCEPT !.o = 0, !.m = 0] /\ E("DeleteObject", "")
  \/ \E c \in Contents : s.l < MaxList /\ s' = [s EXCEPT !.l = @ + 1] /\ E("Add", c)
  \/ s.l > 0 /\ s' = [s EXCEPT !.l = @ - 1] /\ E("DeleteEntry", "")
  \/ s' = s /\ E("Search", "")
  \/ s.u < MaxUsers /\ s' = [s EXCEPT !.u = @ + 1] /\ E("NewUser", "")
  \/ s.u > 0 /\ s' = s /\ E("ChangePassword", "")
  \/ s.u > 0 /\ s' = s /\ E("Login", "")
  \/ s.u > 0 /\ s.g = 0 /\ s' = [s EXCEPT !.g = 1] /\ E("NewGroup", "")
  \/ s.g = 1 /\ s.u > 1 /\ s.j = 0 /\ s' = [s EXCEPT !.j = 1] /\ E("Join", "")
  \/ s.j = 1 /\ s' = [s EXCEPT !.j = 0] /\ E("Leave", "")
  \/ s.u > 1 /\ s' = [s EXCEPT !.u = @ - 1, !.j = 0] /\ E("DeleteUser", "")
  \/ \E c \in Contents : s.l = 0 /\ s' = s /\ E("CreateToken", c)
  \/ s.m = 0 /\ s.l = 0 /\ s' = s /\ E("Restart", "")
Spec == Init /\ [][Next]_s
=============================================================================
