---------------------------------- MODULE LinMC --------------------------------
(* The two descriptions of overlapping calls against each other: the system makes  *)
(* the steps of S, one configuration; an observer who sees only begins and ends    *)
(* keeps the configurations of L.  Unless a call wrote over a change made          *)
(* meanwhile (a tag), every history has an order of the calls explaining it; and   *)
(* with or without tags, nothing deleted comes back and nothing is mixed (C29).    *)
EXTENDS Lin
CONSTANTS Kind, MaxCalls, MaxOpen

Scopes == {OpScope[o] : o \in ObjOps}
Person(u) == [auth |-> TRUE, id |-> u, sc |-> Scopes, gr |-> IF u = "m" THEN {[g |-> "g", sc |-> Scopes]} ELSE {}]
ObjCall(op, u, gs) == [kind |-> "obj", op |-> op, oid |-> "x", who |-> Person(u), pay |-> "", ad |-> "", gs |-> gs]
IdpCall(op, by, uid, gs) == [kind |-> "idp", op |-> op, by |-> by, uid |-> uid, pw |-> "w1", npw |-> "", gs |-> gs]
Alphabet ==
  IF Kind = "obj" THEN
       {ObjCall(op, u, {}) : op \in {"Update", "Decrypt", "Delete"}, u \in {"a", "b"}}
       \cup {ObjCall("AddGroupsToAccess", "a", {"b", "g"}), ObjCall("RemoveGroupsFromAccess", "a", {"b"}), ObjCall("RemoveGroupsFromAccess", "b", {"a"}),
             ObjCall("GetAccessGroups", "a", {}), ObjCall("Decrypt", "m", {})}
  ELSE {IdpCall("AddUserToGroups", "a", "b", {"h"}), IdpCall("RemoveUserFromGroups", "b", "a", {"g"}), IdpCall("RemoveUserFromGroups", "a", "b", {"g"}),
        IdpCall("NewGroup", "b", "", {}), IdpCall("DeleteUser", "a", "b", {}), IdpCall("GetIdentity", "b", "", {}), IdpCall("ChangePw", "", "b", {}), IdpCall("Login", "", "b", {})}
Fresh(c, n) == IF Kind = "obj" THEN [c EXCEPT !.pay = "p" \o ToString(n), !.ad = "d" \o ToString(n)]
               ELSE [c EXCEPT !.npw = "w" \o ToString(n + 1), !.gs = IF c.op = "NewGroup" THEN {"n" \o ToString(n)} ELSE @]
Start == IF Kind = "obj" THEN [o |-> {SealObj("x", "p0", "d0", 0)}, a |-> {SealAcc("x", {"a", "b"}, 0, 0)}]
         ELSE [u \in {"a", "b"} |-> {[gr |-> IF u = "a" THEN {"g", "h"} ELSE {"g"}, pw |-> "w1"]}]

VARIABLES cfg, bel, n, gone, bad
vars == <<cfg, bel, n, gone, bad>>
Init == /\ cfg = [s |-> Start, run |-> NoRun, tags |-> {}]
        /\ bel = {[s |-> Start, run |-> NoRun]}
        /\ n = 0 /\ gone = {} /\ bad = {}
Begin == /\ bel # {} /\ n < MaxCalls /\ Cardinality(DOMAIN cfg.run) < MaxOpen
         /\ \E c \in Alphabet : LET d == Fresh(c, n + 1) IN
              /\ cfg' = CHOOSE g \in BeginS({cfg}, n + 1, d) : TRUE
              /\ bel' = BeginL(bel, n + 1, d)
         /\ n' = n + 1 /\ UNCHANGED <<gone, bad>>
Step == \E g \in StepsS(cfg) : cfg' = g /\ UNCHANGED <<bel, n, gone, bad>>
Victim(c) == IF Kind = "obj" THEN "x" ELSE c.uid
End == \E m \in DOMAIN cfg.run : LET r == cfg.run[m] IN
         /\ r.res # "?"
         /\ cfg' = [cfg EXCEPT !.run = DropRun(@, m)]
         /\ bel' = EndL(bel, m, r.res, r.val)
         /\ gone' = IF r.c.op \in {"Delete", "DeleteUser"} /\ r.res = "ok" THEN gone \cup {Victim(r.c)} ELSE gone
         /\ bad' = IF r.c.op = "Decrypt" /\ r.res = "ok" /\ ~\E k \in 0..MaxCalls : r.val.pay = "p" \o ToString(k) /\ r.val.ad = "d" \o ToString(k) THEN bad \cup {"mixed"} ELSE bad
         /\ UNCHANGED n
Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars

(* C30, with the findings *)
Explained == bel # {} \/ cfg.tags # {}
(* C30 without: does not hold (LinMC_strict.cfg) *)
Strict == bel # {}
(* C29 *)
NeverMixed == bad = {}
StaysGone == \A k \in gone : IF Kind = "obj" THEN cfg.s.a = {} \/ cfg.s.o = {} ELSE Rec(cfg.s, k) = {}
GoneAtRest == DOMAIN cfg.run = {} => \A k \in gone : IF Kind = "obj" THEN cfg.s.a = {} /\ cfg.s.o = {} ELSE Rec(cfg.s, k) = {}
(* calls one after the other need no findings *)
AloneExact == MaxOpen = 1 => bel # {} /\ cfg.tags = {}
===============================================================================
