-------------------------------- MODULE IdpGen --------------------------------
(* Bounded sequential identity provider whose transitions become walks on the    *)
(* real code.                                                                    *)
EXTENDS Idp, Json
CONSTANTS Uids, Gids
VARIABLES al,    \* Uid -> "no" | "yes" | "gone"
          gr,    \* Uid -> its groups
          tok,   \* users of whom an unexpired token is held
          made   \* groups created
vars == <<al, gr, tok, made>>
L(op, t, u, p, gs) == [op |-> op, tok |-> t, uid |-> u, pw |-> p, gs |-> gs]
E(op, t, u, p, gs) == PrintT("@E " \o ToJson([f |-> ToString(vars), t |-> ToString(vars'), l |-> L(op, t, u, p, gs)]))
Init == al = [u \in Uids |-> "no"] /\ gr = [u \in Uids |-> {}] /\ tok = {} /\ made = {}
Stay == UNCHANGED vars
Auth(t) == t \in tok /\ al[t] = "yes"
First == CHOOSE g \in Gids : TRUE
Next ==
  \/ \E u \in Uids :
     \/ al[u] = "no" /\ al' = [al EXCEPT ![u] = "yes"] /\ UNCHANGED <<gr, tok, made>> /\ E("NewUser", "", u, "", {})
     \/ al[u] = "yes" /\ tok' = tok \cup {u} /\ UNCHANGED <<al, gr, made>> /\ E("Login", "", u, "right", {})
     \/ \E p \in {"right", "old", "wrong", "other"} : (p # "right" \/ al[u] # "yes") /\ Stay /\ E("Login", "", u, p, {})
     \/ \E p \in {"right", "old", "other"} : Stay /\ E("ChangePw", "", u, p, {})
     \/ \E t \in {u, "expired", "junk"} : Stay /\ E("GetIdentity", t, u, "", {})
  \/ \E t \in Uids, u \in Uids :
     \/ \E gs \in SUBSET Gids : /\ gr' = IF Auth(t) /\ MayChange(User({}, gr[t], ""), IF al[u] = "yes" THEN User({}, gr[u], "") ELSE Absent, gs)
                                         THEN [gr EXCEPT ![u] = @ \cup gs] ELSE gr
                                /\ UNCHANGED <<al, tok, made>> /\ E("AddUserToGroups", t, u, "", gs)
     \/ \E gs \in SUBSET Gids : /\ gr' = IF Auth(t) /\ MayChange(User({}, gr[t], ""), IF al[u] = "yes" THEN User({}, gr[u], "") ELSE Absent, gs)
                                         THEN [gr EXCEPT ![u] = @ \ gs] ELSE gr
                                /\ UNCHANGED <<al, tok, made>> /\ E("RemoveUserFromGroups", t, u, "", gs)
     \/ /\ al' = IF Auth(t) /\ al[u] = "yes" THEN [al EXCEPT ![u] = "gone"] ELSE al
        /\ gr' = IF Auth(t) THEN [gr EXCEPT ![u] = {}] ELSE gr
        /\ UNCHANGED <<tok, made>> /\ E("DeleteUser", t, u, "", {})
  \/ \E t \in Uids, g \in Gids \ made :
     /\ Auth(t) /\ gr' = [gr EXCEPT ![t] = @ \cup {g}] /\ made' = made \cup {g}
     /\ UNCHANGED <<al, tok>> /\ E("NewGroup", t, "", "", {g})
  \/ \E t \in Uids \cup {"expired", "junk"} : ~Auth(t) /\ Stay /\ E("NewGroup", t, "", "", {First})
  \/ \E t \in {"expired", "junk"}, u \in Uids, op \in {"AddUserToGroups", "RemoveUserFromGroups", "DeleteUser"} :
       Stay /\ E(op, t, u, "", {First})
  \/ tok # {} /\ tok' = {} /\ UNCHANGED <<al, gr, made>> /\ E("Expire", "", "", "", {})
Spec == Init /\ [][Next]_vars
===============================================================================
