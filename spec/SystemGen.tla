-------------------------------- MODULE SystemGen --------------------------------
(* Bounded histories of the whole system, turned into walks on the real code. Users,   *)
(* groups and the object are made once; "other" is a user in full command who never    *)
(* takes part otherwise, and whose token ends the histories.                           *)
EXTENDS System, Json
CONSTANTS GroupScopes, MaxIdx
VARIABLES s, used
vars == <<s, used>>
All == {"Encrypt", "Decrypt", "Update", "Delete", "GetAccessGroups", "ModifyAccessGroups", "Index"}
ScOf(u) == CASE u = "u" -> All [] u = "v" -> All \ {"Delete"}
Blank == [op |-> "", tok |-> "", uid |-> "", pw |-> "", oid |-> "", kw |-> "", it |-> "", gs |-> {}, sc |-> {}, pay |-> ""]
Init == s = Start /\ used = {}
(* the state as one string, written the same way every time                            *)
Bits(S) == <<"u" \in S, "v" \in S, "g" \in S, "o" \in S>>
Groups(x, u) == IF u \in DOMAIN x.us THEN Bits(x.us[u].gr) ELSE <<>>
Name(x, d) == ToString(<<Bits(DOMAIN x.us), Groups(x, "u"), Groups(x, "v"), Bits(DOMAIN x.gs), Bits(DOMAIN x.logins),
                         IF "o" \in DOMAIN x.objs THEN <<Bits(x.objs["o"].acc), x.objs["o"].pay>> ELSE <<>>, ListOf(x, "k"), Bits(d)>>)
E(c, n) == PrintT("@E " \o ToJson([f |-> Name(s, used), t |-> Name(s', used'), l |-> [c |-> c, n |-> n]]))
Do(c, n, nm) ==
  LET ok == Answer(s, c, 0) = "ok" IN
  /\ s' = After(s, c, n, 0, 0)
  /\ used' = IF ok /\ nm # "" THEN used \cup {nm} ELSE used
  /\ E(c, n)
Users == {"u", "v"}
Next ==
  \/ "u" \notin used /\ Do([Blank EXCEPT !.op = "NewUser", !.sc = ScOf("u"), !.pw = "p"], "u", "u")
  \/ "v" \notin used /\ "u" \in used /\ Do([Blank EXCEPT !.op = "NewUser", !.sc = ScOf("v"), !.pw = "p"], "v", "v")
  \/ \E u \in used \cap Users : u \notin DOMAIN s.logins /\ Do([Blank EXCEPT !.op = "Login", !.uid = u, !.pw = "p"], u, "")
  \/ used \cap Users = Users /\ \E t \in DOMAIN s.logins \cup {"bad"} :
     LET B == [Blank EXCEPT !.tok = t] IN
     \/ ("g" \notin used \/ t = "bad" \/ ~Known(s, t, 0)) /\ Do([B EXCEPT !.op = "NewGroup", !.sc = GroupScopes], "g", "g")
     \/ Do([B EXCEPT !.op = "Identity"], "", "")
     \/ t # "u" /\ Do([B EXCEPT !.op = "DeleteUser", !.uid = "v"], "", "")
     \/ "g" \in used /\ \E u \in Users, op \in {"AddUser", "RemoveUser"} : Do([B EXCEPT !.op = op, !.uid = u, !.gs = {"g"}], "", "")
     \/ ("o" \notin used \/ t = "bad") /\ \E gs \in {{}, {"g"}} : gs \subseteq used /\ Do([B EXCEPT !.op = "Encrypt", !.pay = "x", !.gs = gs], "o", "o")
     \/ "o" \in used /\ \E op \in {"Decrypt", "GetAccessGroups", "AuthorizeIdentity", "Delete"} : Do([B EXCEPT !.op = op, !.oid = "o"], "", "")
     \/ "o" \in used /\ Do([B EXCEPT !.op = "Update", !.oid = "o", !.pay = "y"], "", "")
     \/ "o" \in used /\ \E i \in {"g", "v"} \cap used, op \in {"AddGroupsToAccess", "RemoveGroupsFromAccess"} : Do([B EXCEPT !.op = op, !.oid = "o", !.gs = {i}], "", "")
     \/ Len(ListOf(s, "k")) < MaxIdx /\ Do([B EXCEPT !.op = "Add", !.kw = "k", !.it = "i"], "", "")
     \/ Do([B EXCEPT !.op = "Search", !.kw = "k"], "", "")
     \/ MaxIdx > 0 /\ Do([B EXCEPT !.op = "DeleteEntry", !.kw = "k", !.it = "i"], "", "")
Spec == Init /\ [][Next]_vars
==================================================================================
