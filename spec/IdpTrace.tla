------------------------------- MODULE IdpTrace -------------------------------
(* Judges recorded histories of the standalone identity provider (C17-C20).      *)
(* us: uid -> the users the history allows; gs: gid -> scopes; toks: token name  *)
(* -> [uid, exp]; ever: uid -> passwords issued, groups granted, scopes          *)
EXTENDS Idp, TraceBase

NoFn == [x \in {} |-> {}]
IdpInit(tr) == [us |-> NoFn, gs |-> NoFn, toks |-> NoFn, pws |-> NoFn, grant |-> NoFn, scp |-> NoFn,
                faulted |-> FALSE, weak |-> FALSE, kept |-> NoFn, msg |-> ""]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
BelOf(s, u) == IF u \in DOMAIN s.us THEN s.us[u] ELSE {Absent}
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE {}
Failed(e) == e.res \notin {"ok", "panic"}
Quiet(e) == e.chg = 0 /\ e.shown = FALSE

(* does the token count at this instant?  times in whole seconds and nanoseconds *)
TokState(s, e) == IF e.tok \notin DOMAIN s.toks THEN "bad"
                  ELSE LET x == s.toks[e.tok].exp IN
                       IF e.now[1] < x \/ (e.now[1] = x /\ e.now[2] = 0) THEN "good"
                       ELSE IF e.now[1] = x THEN "free" ELSE "bad"
Who(s, e) == s.toks[e.tok].uid

(* what a call reports: identity as a set of groups with scopes *)
SameIdentity(s, e, uid, x) ==
  /\ e.ouid = uid /\ Rng(e.osc) = x[1].sc
  /\ {g.g : g \in Rng(e.ogr)} = x[1].gr
  /\ \A g \in Rng(e.ogr) : g.g \in DOMAIN s.gs /\ Rng(g.sc) = s.gs[g.g] /\ g.id = g.g

(* one world: caller c (a user), target t; the set of [c, t] that may be after the call, {} if the
   observed result is impossible in this world *)
World(s, e, c, t, same) ==
  LET gs == Rng(e.gs)
      w(cc, tt) == [c |-> cc, t |-> IF same THEN cc ELSE tt]
      here == w(c, t)
      refuse == IF Failed(e) /\ Quiet(e) THEN {here} ELSE {}
      step(cc, tt) == IF e.res = "ok" THEN {w(cc, tt)}
                      ELSE IF Failed(e) /\ e.flt > 0 /\ ~e.shown THEN {here, w(cc, tt)} ELSE {}
  IN CASE e.op = "NewUser" -> step(c, c)
     [] e.op \in {"Login"} ->
          IF LoginOk(c, e.pw) THEN (IF e.res = "ok" THEN (IF e.chg = 0 THEN {here} ELSE {}) ELSE IF e.flt > 0 THEN refuse ELSE {})
          ELSE IF e.res = "notauthn" \/ e.flt > 0 THEN refuse ELSE {}
     [] e.op = "ChangePw" ->
          IF LoginOk(c, e.pw) THEN step(WithPw(c, e.opw), WithPw(c, e.opw))
          ELSE IF e.res = "notauthn" \/ e.flt > 0 THEN refuse ELSE {}
     [] ~Alive(c) -> refuse
     [] e.op = "GetIdentity" -> IF e.res = "ok" THEN (IF e.chg = 0 /\ SameIdentity(s, e, Who(s, e), c) THEN {here} ELSE {})
                                ELSE IF e.flt > 0 THEN refuse ELSE {}
     [] e.op = "NewGroup" -> step(WithGroups(c, {e.gid}), WithGroups(c, {e.gid}))
     [] e.op = "DeleteUser" -> IF same THEN step(Absent, Absent) ELSE step(c, Absent)
     [] e.op = "AddUserToGroups" ->
          IF MayChange(c, t, gs) THEN (IF same THEN step(WithGroups(c, gs), c) ELSE step(c, WithGroups(t, gs))) ELSE refuse
     [] e.op = "RemoveUserFromGroups" ->
          IF MayChange(c, t, gs) THEN (IF same THEN step(WithoutGroups(c, gs), c) ELSE step(c, WithoutGroups(t, gs))) ELSE refuse

ByToken == {"GetIdentity", "NewGroup", "DeleteUser", "AddUserToGroups", "RemoveUserFromGroups"}

Plain(s, e) ==
  LET byTok == e.op \in ByToken
      st == IF byTok THEN TokState(s, e) ELSE "good"
      me == IF byTok /\ st # "bad" THEN Who(s, e) ELSE e.uid
      hasT == e.op \in {"DeleteUser", "AddUserToGroups", "RemoveUserFromGroups"}
      tgt == IF hasT THEN e.uid ELSE me
      same == tgt = me
      sc == Rng(e.sc)
      cs == IF e.op = "NewUser" THEN {User(sc, {}, e.opw)} ELSE BelOf(s, me)
      s1 == IF e.op = "NewGroup" /\ e.gid # "" THEN [s EXCEPT !.gs = Put(@, e.gid, sc)] ELSE s
      ws == UNION {UNION {World(s1, e, c, t, same) : t \in IF same THEN {c} ELSE BelOf(s, tgt)} : c \in cs}
      allRefused == Failed(e) /\ Quiet(e)
      fresh == /\ e.op = "NewUser" /\ e.res = "ok" => e.uid \notin DOMAIN s.us
               /\ e.op = "NewGroup" /\ e.res = "ok" => e.gid \notin DOMAIN s.gs
      \* the identity of a new token
      tokOk == e.op = "Login" /\ e.res = "ok" =>
                 /\ e.exp = e.now[1] + e.validity
                 /\ e.otok \notin DOMAIN s.toks
      \* wrong password and unknown user look the same
      msgOk == e.op \in {"Login", "ChangePw"} /\ e.res = "notauthn" /\ s.msg # "" => e.msg = s.msg
      ok == /\ e.res # "panic" /\ fresh /\ tokOk /\ msgOk
            /\ CASE st = "bad" -> allRefused
                 [] st = "free" -> allRefused \/ ws # {}
                 [] OTHER -> ws # {}
      move == st = "good" \/ (st = "free" /\ ~allRefused)
      newPw == e.op \in {"NewUser", "ChangePw"} /\ e.opw # ""
      s2 == IF ~move THEN s1 ELSE
            [s1 EXCEPT !.us = IF same THEN Put(@, me, {w.c : w \in ws} \cup IF e.op = "NewUser" /\ e.res # "ok" THEN {Absent} ELSE {})
                              ELSE Put(Put(@, me, {w.c : w \in ws}), tgt, {w.t : w \in ws})]
      s3 == [s2 EXCEPT !.faulted = @ \/ e.flt > 0,
                       !.toks = IF e.op = "Login" /\ e.res = "ok" THEN Put(@, e.otok, [uid |-> e.uid, exp |-> e.exp])
                                ELSE @,
                       !.pws = IF newPw THEN Put(@, e.uid, At(s.pws, e.uid) \cup {e.opw}) ELSE @,
                       !.scp = IF e.op = "NewUser" THEN Put(@, e.uid, {sc}) ELSE @,
                       !.grant = IF e.op = "NewGroup" /\ move THEN Put(@, me, At(s.grant, me) \cup {e.gid})
                                 ELSE IF e.op = "AddUserToGroups" THEN Put(@, e.uid, At(s.grant, e.uid) \cup Rng(e.gs)) ELSE @,
                       !.msg = IF e.op \in {"Login", "ChangePw"} /\ e.res = "notauthn" THEN e.msg ELSE @]
      bad == IF s.faulted \/ e.flt > 0 THEN {"C19"}
             ELSE IF e.op \in {"Login", "ChangePw"} THEN {"C17"}
             ELSE IF byTok /\ st = "bad" THEN {"C17", "C18"}
             ELSE IF e.op = "GetIdentity" /\ (e.res # "ok" \/ e.ouid # me) THEN {"C17", "C18"}
             ELSE {"C18"}
  IN [ok |-> ok, st |-> IF ok THEN s3 ELSE s, blame |-> bad,
      why |-> [sig |-> "", op |-> e.op, got |-> e.res, token |-> st, pw |-> e.pw, groups |-> e.ogr,
               caller |-> cs, target |-> BelOf(s, tgt)], find |-> {}]

(* an edited store: calls that meet an altered record fail; what others use was sealed for that ID *)
Weak(s, e) ==
  LET me == IF e.op = "GetIdentity" THEN e.ouid ELSE e.uid
      ok == /\ e.res # "panic" /\ (e.res # "ok" => ~e.shown)
            /\ e.visbad > 0 => Failed(e)
            /\ e.res = "ok" =>
               CASE e.op = "Login" -> e.pw \in At(s.pws, e.uid)
                 [] e.op = "ChangePw" -> e.pw \in At(s.pws, e.uid)
                 [] e.op = "GetIdentity" ->
                      /\ e.tok \in DOMAIN s.toks /\ e.ouid = Who(s, e)
                      /\ Rng(e.osc) \in At(s.scp, me)
                      /\ \A g \in Rng(e.ogr) : g.g \in At(s.grant, me) /\ g.g \in DOMAIN s.gs /\ Rng(g.sc) = s.gs[g.g]
                 [] OTHER -> TRUE
      s1 == [s EXCEPT !.pws = IF e.op = "ChangePw" /\ e.opw # "" THEN Put(@, e.uid, At(s.pws, e.uid) \cup {e.opw}) ELSE @,
                      !.toks = IF e.op = "Login" /\ e.res = "ok" THEN Put(@, e.otok, [uid |-> e.uid, exp |-> e.exp]) ELSE @,
                      !.gs = IF e.op = "NewGroup" /\ e.gid # "" THEN Put(@, e.gid, Rng(e.sc)) ELSE @,
                      !.grant = IF e.op = "AddUserToGroups" THEN Put(@, e.uid, At(s.grant, e.uid) \cup Rng(e.gs))
                                ELSE IF e.op = "NewGroup" /\ e.gid # "" /\ e.tok \in DOMAIN s.toks THEN Put(@, Who(s, e), At(s.grant, Who(s, e)) \cup {e.gid}) ELSE @]
  IN [ok |-> ok, st |-> s1, blame |-> {"C20"},
      why |-> [sig |-> "", op |-> e.op, got |-> e.res, bad_records_met |-> e.visbad, pw |-> e.pw, groups |-> e.ogr], find |-> {}]

Ok(s) == [ok |-> TRUE, st |-> s, blame |-> {}, why |-> "", find |-> {}]
IdpJudge(tr, e, i, s) ==
  CASE e.op = "Mint" -> Ok([s EXCEPT !.toks = Put(@, e.otok, [uid |-> e.uid, exp |-> e.exp])])
    [] e.op = "Edit" -> Ok([s EXCEPT !.weak = TRUE, !.kept = s.us])
    [] e.op = "Restore" -> Ok([s EXCEPT !.weak = FALSE, !.us = s.kept])
    [] s.weak -> Weak(s, e)
    [] OTHER -> Plain(s, e)
===============================================================================
