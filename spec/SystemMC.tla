-------------------------------- MODULE SystemMC --------------------------------
(* What the rules of System add up to: access spreads only through those who have it, *)
(* nobody acts after deletion or expiry, every user can be identified.                *)
(* Open = TRUE: a rule is missing (adding to a group needs no membership); the        *)
(* invariants must notice.                                                             *)
EXTENDS System
CONSTANTS Uids, Gids, Oids, MaxCalls, MaxNow, Open
VARIABLES s, now, calls, used, may, spread, acted
vars == <<s, now, calls, used, may, spread, acted>>
All == {"Encrypt", "Decrypt", "Update", "Delete", "GetAccessGroups", "ModifyAccessGroups", "Index"}
ScopeSets == {All, {"Decrypt"}}
Blank == [op |-> "", tok |-> "", uid |-> "", pw |-> "", oid |-> "", kw |-> "k", it |-> "i", gs |-> {}, sc |-> {}, pay |-> ""]
Init == /\ s = Start /\ now = 0 /\ calls = 0 /\ used = {} /\ may = [o \in Oids |-> {}] /\ spread = {} /\ acted = {}
(* users that a list of IDs reaches                                                     *)
Reach(st, gs) == {u \in DOMAIN st.us : u \in gs \/ st.us[u].gr \cap gs # {}}
Ok2(c) == IF Open /\ c.op = "AddUser" THEN Known(s, c.tok, now) /\ c.uid \in DOMAIN s.us ELSE Answer(s, c, now) = "ok"
Do(c, n) ==
  /\ Ok2(c)
  /\ LET t == Effect(s, c, n, now + 1, now)
         me == IF c.tok # "" THEN Who(s, c.tok) ELSE ""
         new(o) == IF o \in DOMAIN t.objs THEN Reach(t, t.objs[o].acc) ELSE {}
         old(o) == IF o \in DOMAIN s.objs THEN Reach(s, s.objs[o].acc) ELSE {}
     IN /\ s' = t
        /\ may' = [o \in Oids |-> may[o] \cup new(o)]
        /\ spread' = spread \cup {<<o, me, me \in may[o] \/ c.op = "Encrypt">> : o \in {x \in Oids : new(x) \ may[x] # {}}}
        /\ acted' = IF c.tok = "" THEN acted ELSE {<<c.op, me, s.logins[c.tok].exp>>}
  /\ calls' = calls + 1
  /\ UNCHANGED now
Ids == DOMAIN s.us \cup DOMAIN s.gs
Next ==
  /\ calls < MaxCalls
  /\ \/ \E u \in Uids \ used, sc \in ScopeSets : used' = used \cup {u} /\ Do([Blank EXCEPT !.op = "NewUser", !.sc = sc, !.pw = "p"], u)
     \/ \E u \in Uids : used' = used /\ Do([Blank EXCEPT !.op = "Login", !.uid = u, !.pw = "p"], u)
     \/ \E t \in DOMAIN s.logins :
        LET B == [Blank EXCEPT !.tok = t] IN
        \/ \E g \in Gids \ used, sc \in ScopeSets : used' = used \cup {g} /\ Do([B EXCEPT !.op = "NewGroup", !.sc = sc], g)
        \/ \E u \in DOMAIN s.us : used' = used /\ Do([B EXCEPT !.op = "DeleteUser", !.uid = u], "")
        \/ \E u \in DOMAIN s.us, g \in DOMAIN s.gs, op \in {"AddUser", "RemoveUser"} : used' = used /\ Do([B EXCEPT !.op = op, !.uid = u, !.gs = {g}], "")
        \/ \E o \in Oids \ used, gs \in SUBSET Ids : Cardinality(gs) < 2 /\ used' = used \cup {o} /\ Do([B EXCEPT !.op = "Encrypt", !.gs = gs], o)
        \/ \E o \in DOMAIN s.objs, i \in Ids, op \in {"AddGroupsToAccess", "RemoveGroupsFromAccess"} : used' = used /\ Do([B EXCEPT !.op = op, !.oid = o, !.gs = {i}], "")
        \/ \E o \in DOMAIN s.objs, op \in {"Decrypt", "Delete"} : used' = used /\ Do([B EXCEPT !.op = op, !.oid = o], "")
     \/ now < MaxNow /\ now' = now + 1 /\ calls' = calls + 1 /\ acted' = {} /\ UNCHANGED <<s, used, may, spread>>
Spec == Init /\ [][Next]_vars

Confined == \A x \in spread : x[3]
(* whoever can read an object has got it through such a chain, holds the scope, and is listed *)
Readers == \A t \in DOMAIN s.logins, o \in DOMAIN s.objs :
   Answer(s, [Blank EXCEPT !.op = "Decrypt", !.tok = t, !.oid = o], now) = "ok" =>
     LET u == Who(s, t) IN
     /\ u \in may[o] /\ u \in DOMAIN s.us /\ now <= s.logins[t].exp /\ "Decrypt" \in s.us[u].sc
     /\ (u \in s.objs[o].acc \/ \E g \in s.us[u].gr \cap s.objs[o].acc : "Decrypt" \in s.gs[g])
NotDead == \A t \in DOMAIN s.logins : (Who(s, t) \notin DOMAIN s.us \/ s.logins[t].exp < now) =>
   \A op \in {"Identity", "NewGroup", "DeleteUser", "Search", "Encrypt"} : Answer(s, [Blank EXCEPT !.op = op, !.tok = t], now) # "ok"
Timely == \A x \in acted : now <= x[3]
Identified == \A u \in DOMAIN s.us : s.us[u].gr \subseteq DOMAIN s.gs
=================================================================================
