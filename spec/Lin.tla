---------------------------------- MODULE Lin ----------------------------------
(* Overlapping calls on one item (C29, C30).                                      *)
(*                                                                                *)
(* Two descriptions of the same calls are followed side by side.                  *)
(*                                                                                *)
(* "One at a time" (L): every call takes effect at one instant between its begin  *)
(* and its end, or fails without effect because a writing call overlapped it.     *)
(* This is the guarantee.  A configuration is [s, run], run: call number ->       *)
(* [c, done, res, val, ov].                                                       *)
(*                                                                                *)
(* "Read, then write" (S): every call reads the record, works on its copy and     *)
(* writes it back, in separate steps.  This is what is known to go wrong: a       *)
(* configuration carries a set of tags, one for each kind of call X that wrote    *)
(* over a change made since X read the record.  A history that   *)
(* only S exss, and only with tags, is that finding; a history that neither   *)
(* exss, or S exss without tags, is a violation.                          *)
EXTENDS Objects

NoRun == [n \in {} |-> 0]
SetRun(run, n, r) == [m \in DOMAIN run \cup {n} |-> IF m = n THEN r ELSE run[m]]
DropRun(run, n) == [m \in DOMAIN run \ {n} |-> run[m]]
NoVal == [pay |-> "", ad |-> "", gs |-> {}, seq |-> <<>>]
Fails == {"error", "notfound", "exists"}

ReadOnly == {"Decrypt", "GetAccessGroups", "AuthorizeIdentity", "Search", "GetIdentity", "Login"}
IsWriter(c) == c.op \notin ReadOnly

----------------------------------------------------------------------------------
(* Objects.  c = [kind, op, oid, who, pay, ad, gs]; s = [o, a]                     *)
ObjVal(c, s) == CASE c.op = "Decrypt" -> [NoVal EXCEPT !.pay = The(s.o).ct.pay, !.ad = The(s.o).ad]
                  [] c.op = "GetAccessGroups" -> [NoVal EXCEPT !.gs = ListOf(c.oid, s)]
                  [] OTHER -> NoVal
ObjWhole(s, c, n) ==
  LET v == Verdict(c.op, c.who, c.oid, s) IN
  IF v # "ok" THEN [s |-> s, res |-> v, val |-> NoVal]
  ELSE [s |-> Effect(c.op, c.who, c.oid, c.pay, c.ad, c.gs, s, n), res |-> "ok", val |-> ObjVal(c, s)]

(* steps of S: run[n] = [c, ph, ra, ro, w, res, val]; s = [o, a]         *)
S0(c) == [c |-> c, ph |-> "start", ra |-> {}, ro |-> {}, w |-> {}, res |-> "?", val |-> NoVal]
Answer(cfg, n, res, val) == [cfg EXCEPT !.run = SetRun(@, n, [@[n] EXCEPT !.res = res, !.val = val])]
Over(c) == c.op \o " over a change made meanwhile"
ChangedBy == "a change by a caller whose own record changed meanwhile"

ObjStep(cfg, n) ==
  LET r == cfg.run[n]  c == r.c  s == cfg.s
      fin(res, val) == {Answer(cfg, n, res, val)}
  IN IF c.op = "Encrypt" THEN
        LET e == ObjWhole(s, c, n) IN
        {Answer([cfg EXCEPT !.s = e.s], n, e.res, e.val)}
     ELSE IF r.ph = "start" THEN
        (IF Gate(c.op, c.who) # "pass" THEN fin(Gate(c.op, c.who), NoVal)
         ELSE IF s.a = {} THEN fin(IF c.op = "Delete" THEN "ok" ELSE "notfound", NoVal)
         ELSE IF ~AccOpens(The(s.a), c.oid) THEN fin("error", NoVal)
         ELSE IF Eligible(c.who, OpScope[c.op]) \cap ListOf(c.oid, s) = {} THEN fin("notauthz", NoVal)
         ELSE IF c.op \in {"GetAccessGroups", "AuthorizeIdentity"} THEN fin("ok", ObjVal(c, s))
         ELSE {[cfg EXCEPT !.run = SetRun(@, n, [r EXCEPT !.ph = IF c.op = "Decrypt" THEN "obj" ELSE "w", !.ra = s.a, !.ro = s.o,
                   !.w = IF c.op \in {"Update", "Delete"} THEN {"o", "a"} ELSE {"a"}])]})
     ELSE IF r.ph = "obj" THEN
        (IF s.o = {} THEN fin("notfound", NoVal)
         ELSE IF ObjOpens(The(s.o), c.oid, The(r.ra).ct.dek) THEN fin("ok", ObjVal(c, [o |-> s.o, a |-> r.ra]))
         ELSE fin("error", NoVal))
     ELSE
       {LET left == r.w \ {x}
            r2 == [r EXCEPT !.w = left, !.res = IF left = {} THEN "ok" ELSE "?"]
            gone == IF x = "o" THEN s.o = {} ELSE s.a = {}
            old == The(r.ra).ct
            acc == CASE c.op = "Update" -> SealAcc(c.oid, old.gs, n, n)
                     [] c.op = "AddGroupsToAccess" -> SealAcc(c.oid, old.gs \cup c.gs, old.dek, n)
                     [] c.op = "RemoveGroupsFromAccess" -> SealAcc(c.oid, old.gs \ c.gs, old.dek, n)
        IN IF c.op = "Delete" THEN
              [cfg EXCEPT !.run = SetRun(@, n, r2), !.s = IF x = "o" THEN [s EXCEPT !.o = {}] ELSE [s EXCEPT !.a = {}],
                          !.tags = IF s.a # {} /\ s.a # r.ra THEN @ \cup {Over(c)} ELSE @]
           ELSE IF gone THEN Answer(cfg, n, "notfound", NoVal)
           ELSE IF x = "o" THEN
              [cfg EXCEPT !.run = SetRun(@, n, r2), !.s = [s EXCEPT !.o = {SealObj(c.oid, c.pay, c.ad, n)}],
                          !.tags = IF s.o # r.ro THEN @ \cup {Over(c)} ELSE @]
           ELSE
              [cfg EXCEPT !.run = SetRun(@, n, r2), !.s = [s EXCEPT !.a = {acc}],
                          !.tags = IF s.a # r.ra THEN @ \cup {Over(c)} ELSE @]
        : x \in r.w}

----------------------------------------------------------------------------------
(* Index.  s is the sequence of identifiers; no S description (the deviations are  *)
(* told apart by their symptoms).  c = [kind, op, id]                              *)
IdxWhole(s, c) ==
  CASE c.op = "Add" -> [s |-> Append(s, c.id), res |-> "ok", val |-> NoVal]
    [] c.op = "DeleteEntry" -> [s |-> SelectSeq(s, LAMBDA x : x # c.id), res |-> "ok", val |-> NoVal]
    [] c.op = "Search" -> [s |-> s, res |-> "ok", val |-> [NoVal EXCEPT !.seq = s]]

(* Cryptographic helpers shared by callers: what was sealed opens as it was, tags    *)
(* and hashes are those of the caller's own input (C28 only).  c = [kind, op, pay, i] *)
FunWhole(s, c) ==
  CASE c.op = "Seal" -> [s |-> Append(s, c.pay), res |-> "ok", val |-> NoVal]
    [] c.op = "Open" -> [s |-> s, res |-> "ok", val |-> [NoVal EXCEPT !.pay = s[c.i]]]
    [] c.op = "Same" -> [s |-> s, res |-> "ok", val |-> [NoVal EXCEPT !.pay = c.pay]]

----------------------------------------------------------------------------------
(* Users.  s: uid -> {} or {[gr, pw]}.                                             *)
(* c = [kind, op, by, uid, pw, npw, gs]: by is the user whose token is presented   *)
Rec(s, u) == IF u \in DOMAIN s THEN s[u] ELSE {}
SetU(s, u, x) == [v \in DOMAIN s \cup {u} |-> IF v = u THEN x ELSE s[v]]
ByToken == {"GetIdentity", "NewGroup", "DeleteUser", "AddUserToGroups", "RemoveUserFromGroups"}
(* what a writing call makes of the record it holds *)
Changed(c, x) == CASE c.op = "ChangePw" -> {[The(x) EXCEPT !.pw = c.npw]}
                   [] c.op = "AddUserToGroups" -> {[The(x) EXCEPT !.gr = @ \cup c.gs]}
                   [] c.op = "RemoveUserFromGroups" -> {[The(x) EXCEPT !.gr = @ \ c.gs]}
                   [] c.op = "NewGroup" -> {[The(x) EXCEPT !.gr = @ \cup c.gs]}
                   [] c.op = "DeleteUser" -> {}
Target(c) == IF c.op = "NewGroup" THEN c.by ELSE c.uid
(* what the caller's own record allows: "ok", or the refusal *)
CallerOk(c, x) == IF x = {} THEN "notfound"
                  ELSE IF c.op \in {"AddUserToGroups", "RemoveUserFromGroups"} /\ ~(c.gs \subseteq The(x).gr) THEN "notauthz" ELSE "ok"
IdpWhole(s, c) ==
  LET no(res) == [s |-> s, res |-> res, val |-> NoVal] IN
  CASE c.op = "NewUser" -> [s |-> SetU(s, c.uid, {[gr |-> {}, pw |-> c.npw]}), res |-> "ok", val |-> NoVal]
    [] c.op \in {"Login", "ChangePw"} ->
         (IF Rec(s, c.uid) = {} \/ The(Rec(s, c.uid)).pw # c.pw THEN no("notauthn")
          ELSE IF c.op = "Login" THEN no("ok") ELSE [s |-> SetU(s, c.uid, Changed(c, s[c.uid])), res |-> "ok", val |-> NoVal])
    [] OTHER ->
         LET v == CallerOk(c, Rec(s, c.by)) IN
         IF v # "ok" THEN no(v)
         ELSE IF c.op = "GetIdentity" THEN [s |-> s, res |-> "ok", val |-> [NoVal EXCEPT !.gs = The(s[c.by]).gr]]
         ELSE IF c.op # "DeleteUser" /\ Rec(s, Target(c)) = {} THEN no("notfound")
         ELSE [s |-> SetU(s, Target(c), IF Rec(s, Target(c)) = {} THEN {} ELSE Changed(c, s[Target(c)])), res |-> "ok", val |-> NoVal]

(* S: who asks is checked and the record is read in either order, then it is written *)
IdpStep(cfg, n) ==
  LET r == cfg.run[n]  c == r.c  s == cfg.s
      x == Rec(s, c.by)  t == Target(c)  y == Rec(s, t)
      fin(res, val) == {Answer(cfg, n, res, val)}
      to(ph, ra, ro) == {[cfg EXCEPT !.run = SetRun(@, n, [r EXCEPT !.ph = ph, !.ra = ra, !.ro = ro])]}
      write(z, tags) == Answer([cfg EXCEPT !.s = SetU(s, t, z), !.tags = @ \cup tags], n, "ok", NoVal)
      moved == IF c.op \in ByToken /\ x # r.ro /\ (c.by # t \/ c.op = "DeleteUser" \/ y = r.ra) THEN {ChangedBy} ELSE {}
  IN CASE c.op \in {"NewUser", "Login", "GetIdentity"} ->
            LET e == IdpWhole(s, c) IN {Answer([cfg EXCEPT !.s = e.s], n, e.res, e.val)}
       [] c.op = "ChangePw" /\ r.ph = "start" ->
            IF y = {} \/ The(y).pw # c.pw THEN fin("notauthn", NoVal) ELSE to("w", y, {})
       [] c.op \in ByToken /\ r.ph = "start" ->
            (IF CallerOk(c, x) # "ok" THEN fin(CallerOk(c, x), NoVal)
             ELSE IF c.op = "DeleteUser" THEN to("w", {}, x) ELSE to("read", {}, x))
            \cup (IF c.op = "DeleteUser" THEN {} ELSE IF y = {} THEN fin("notfound", NoVal) ELSE to("check", y, {}))
       [] r.ph = "read" -> IF y = {} THEN fin("notfound", NoVal) ELSE to("w", y, r.ro)
       [] r.ph = "check" -> IF CallerOk(c, x) # "ok" THEN fin(CallerOk(c, x), NoVal) ELSE to("w", r.ra, x)
       [] r.ph = "w" ->
            IF c.op = "DeleteUser" THEN {write({}, moved)}
            ELSE IF y = {} THEN fin("notfound", NoVal)
            ELSE {write(Changed(c, r.ra), moved \cup IF y # r.ra THEN {Over(c)} ELSE {})}

----------------------------------------------------------------------------------
(* The two descriptions as sets of configurations *)
Whole(s, c, n) == CASE c.kind = "obj" -> ObjWhole(s, c, n) [] c.kind = "idx" -> IdxWhole(s, c) [] c.kind = "fun" -> FunWhole(s, c) [] c.kind = "idp" -> IdpWhole(s, c)
Empty(kind) == CASE kind = "obj" -> Absent [] kind \in {"idx", "fun"} -> <<>> [] kind = "idp" -> [u \in {} |-> {}]

L0(kind) == {[s |-> Empty(kind), run |-> NoRun]}
SS0(kind) == {[s |-> Empty(kind), run |-> NoRun, tags |-> {}]}

BeginL(cfgs, n, c) ==
  {LET others == {m \in DOMAIN g.run : TRUE}
       marked == [m \in others |-> [g.run[m] EXCEPT !.ov = @ \/ IsWriter(c)]]
       ov == \E m \in others : IsWriter(g.run[m].c)
   IN [g EXCEPT !.run = SetRun(marked, n, [c |-> c, done |-> FALSE, res |-> "?", val |-> NoVal, ov |-> ov])] : g \in cfgs}
BeginS(cfgs, n, c) == {[g EXCEPT !.run = SetRun(@, n, S0(c))] : g \in cfgs}

OneL(g, n) == LET e == Whole(g.s, g.run[n].c, n)
              IN [s |-> e.s, run |-> SetRun(g.run, n, [g.run[n] EXCEPT !.done = TRUE, !.res = e.res, !.val = e.val])]
StepsL(g) == {OneL(g, n) : n \in {m \in DOMAIN g.run : ~g.run[m].done}}
StepS(g, n) == IF g.run[n].c.kind = "obj" THEN ObjStep(g, n) ELSE IdpStep(g, n)
StepsS(g) == UNION {StepS(g, n) : n \in {m \in DOMAIN g.run : g.run[m].res = "?"}}
RECURSIVE CloseL(_, _), CloseS(_, _)
CloseL(done, new) == IF new = {} THEN done ELSE LET d == done \cup new IN CloseL(d, UNION {StepsL(g) : g \in new} \ d)
CloseS(done, new) == IF new = {} THEN done ELSE LET d == done \cup new IN CloseS(d, UNION {StepsS(g) : g \in new} \ d)

(* call n ended with this result; which error it is matters only where the API says so *)
ResFit(c, a, b) == a = b \/ (a # "ok" /\ b # "ok" /\ a # "panic" /\ b # "panic" /\ (c.kind = "idp" \/ {a, b} \subseteq Fails))
EndL(cfgs, n, res, val) ==
  LET fit == {g \in CloseL({}, cfgs) : \/ g.run[n].done /\ ResFit(g.run[n].c, g.run[n].res, res) /\ g.run[n].val = val
                                       \/ ~g.run[n].done /\ g.run[n].ov /\ res \in Fails}
  IN {[g EXCEPT !.run = DropRun(@, n)] : g \in fit}
EndS(cfgs, n, res, val) ==
  LET fit == {g \in CloseS({}, cfgs) : g.run[n].res # "?" /\ ResFit(g.run[n].c, g.run[n].res, res) /\ g.run[n].val = val}
  IN {[g EXCEPT !.run = DropRun(@, n)] : g \in fit}
(* the state of S with nothing running that L describes *)
FromL(g) == [s |-> g.s, run |-> NoRun, tags |-> {}]
===============================================================================
