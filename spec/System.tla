--------------------------------- MODULE System ---------------------------------
(* The parts of the library working together over one storage: users of the          *)
(* standalone identity provider use objects, access lists, the index and tokens.     *)
(* What an object call means is taken from Objects, what a user call means from Idp. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
O == INSTANCE Objects
I == INSTANCE Idp

NoFn == [x \in {} |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
(* us: uid -> [sc, gr, pw]   gs: gid -> scopes   logins: token -> [uid, exp]          *)
(* objs: oid -> [acc, pay]   idx: keyword -> identifiers in order   toks: [pay, exp]  *)
Start == [us |-> NoFn, gs |-> NoFn, logins |-> NoFn, objs |-> NoFn, idx |-> NoFn, toks |-> NoFn]

UserOf(s, u) == IF u \in DOMAIN s.us THEN I!User(s.us[u].sc, s.us[u].gr, s.us[u].pw) ELSE I!Absent
Valid(x, now) == now <= x.exp
Known(s, tok, now) == tok \in DOMAIN s.logins /\ Valid(s.logins[tok], now) /\ s.logins[tok].uid \in DOMAIN s.us
Who(s, tok) == s.logins[tok].uid
(* the caller as the object calls see it: its own scopes, and those of its groups     *)
Caller(s, tok, now) ==
  IF ~Known(s, tok, now) THEN [auth |-> FALSE, id |-> "", sc |-> {}, gr |-> {}]
  ELSE LET u == Who(s, tok) IN
       [auth |-> TRUE, id |-> u, sc |-> s.us[u].sc, gr |-> {[g |-> g, sc |-> s.gs[g]] : g \in s.us[u].gr}]
Records(s, oid) == IF oid \in DOMAIN s.objs
                   THEN [o |-> {O!SealObj(oid, s.objs[oid].pay, "", 1)}, a |-> {O!SealAcc(oid, s.objs[oid].acc, 1, 1)}]
                   ELSE O!Absent
ListOf(s, kw) == IF kw \in DOMAIN s.idx THEN s.idx[kw] ELSE <<>>

UserOps == {"NewUser", "Login", "ChangePw", "Identity", "NewGroup", "DeleteUser", "AddUser", "RemoveUser"}
IndexOps == {"Add", "Search", "DeleteEntry"}
TokenOps == {"CreateToken", "OpenToken"}

(* c: [op, tok, uid, pw, oid, kw, it, gs, sc, pay]; the answer of the call            *)
Answer(s, c, now) ==
  LET known == Known(s, c.tok, now)
      me == UserOf(s, Who(s, c.tok))
  IN CASE c.op \in {"NewUser", "CreateToken"} -> "ok"
       [] c.op \in {"Login", "ChangePw"} -> IF I!LoginOk(UserOf(s, c.uid), c.pw) THEN "ok" ELSE "refused"
       [] c.op \in {"Identity", "NewGroup", "DeleteUser"} -> IF known THEN "ok" ELSE "refused"
       [] c.op \in {"AddUser", "RemoveUser"} -> IF known /\ I!MayChange(me, UserOf(s, c.uid), c.gs) THEN "ok" ELSE "refused"
       [] c.op \in IndexOps -> IF ~known THEN "notauthn" ELSE IF "Index" \notin s.us[Who(s, c.tok)].sc THEN "notauthz" ELSE "ok"
       [] c.op = "OpenToken" -> IF c.pay \in DOMAIN s.toks /\ Valid(s.toks[c.pay], now) THEN "ok" ELSE "refused"
       [] OTHER -> O!Verdict(c.op, Caller(s, c.tok, now), c.oid, Records(s, c.oid))

(* what the call changes; n: the name of the new user, group, token, object or password *)
Effect(s, c, n, exp, now) ==
  LET me == Who(s, c.tok)
  IN CASE c.op = "NewUser" -> [s EXCEPT !.us = Put(@, n, [sc |-> c.sc, gr |-> {}, pw |-> c.pw])]
       [] c.op = "Login" -> [s EXCEPT !.logins = Put(@, n, [uid |-> c.uid, exp |-> exp])]
       [] c.op = "ChangePw" -> [s EXCEPT !.us[c.uid].pw = n]
       [] c.op = "NewGroup" -> [s EXCEPT !.gs = Put(@, n, c.sc), !.us[me].gr = @ \cup {n}]
       [] c.op = "DeleteUser" -> [s EXCEPT !.us = Del(@, c.uid)]
       [] c.op = "AddUser" -> [s EXCEPT !.us[c.uid].gr = @ \cup c.gs]
       [] c.op = "RemoveUser" -> [s EXCEPT !.us[c.uid].gr = @ \ c.gs]
       [] c.op = "Add" -> [s EXCEPT !.idx = Put(@, c.kw, Append(ListOf(s, c.kw), c.it))]
       [] c.op = "DeleteEntry" -> [s EXCEPT !.idx = Put(@, c.kw, SelectSeq(ListOf(s, c.kw), LAMBDA x : x # c.it))]
       [] c.op = "CreateToken" -> [s EXCEPT !.toks = Put(@, n, [pay |-> c.pay, exp |-> exp])]
       [] c.op = "Encrypt" -> [s EXCEPT !.objs = Put(@, n, [acc |-> c.gs \cup {me}, pay |-> c.pay])]
       [] c.op = "Update" -> [s EXCEPT !.objs[c.oid].pay = c.pay]
       [] c.op = "Delete" -> [s EXCEPT !.objs = Del(@, c.oid)]
       [] c.op = "AddGroupsToAccess" -> [s EXCEPT !.objs[c.oid].acc = @ \cup c.gs]
       [] c.op = "RemoveGroupsFromAccess" -> [s EXCEPT !.objs[c.oid].acc = @ \ c.gs]
       [] OTHER -> s
After(s, c, n, exp, now) == IF Answer(s, c, now) = "ok" THEN Effect(s, c, n, exp, now) ELSE s
=================================================================================
