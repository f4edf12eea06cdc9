------------------------------- MODULE SystemTrace -------------------------------
(* Judges histories of the whole library over one storage (C33).                      *)
EXTENDS System, TraceBase
Rng(s) == {s[i] : i \in DOMAIN s}
SysInit(tr) == Start
SysJudge(tr, e, i, s) ==
  LET P == IF tr.kind = "old" THEN {"C35"} ELSE {"C33"} IN
  IF e.op = "Restart" THEN
    [ok |-> e.res # "error", st |-> s, blame |-> P, find |-> {},
     why |-> [sig |-> "", op |-> e.op, expected |-> "", got |-> e.opay, fresh |-> TRUE, data |-> TRUE, shown |-> "", list |-> <<>>]] ELSE
  LET c == [op |-> e.op, tok |-> e.tok, uid |-> e.uid, pw |-> e.pw, oid |-> e.oid, kw |-> e.kw, it |-> e.it,
            gs |-> Rng(e.gs), sc |-> Rng(e.sc), pay |-> e.pay]
      a == Answer(s, c, e.now)
      ok == e.res = "ok"
      fresh == ok => CASE e.op = "NewUser" -> e.new \notin DOMAIN s.us
                       [] e.op = "NewGroup" -> e.new \notin DOMAIN s.gs
                       [] e.op = "Login" -> e.new \notin DOMAIN s.logins /\ e.exp = e.now + 3600
                       [] e.op = "Encrypt" -> e.new \notin DOMAIN s.objs
                       [] OTHER -> TRUE
      out == IF ~ok THEN e.shown = FALSE ELSE
             CASE e.op = "Identity" ->
                    LET u == Who(s, e.tok) IN
                    /\ e.ouid = u /\ Rng(e.osc) = s.us[u].sc
                    /\ {g.g : g \in Rng(e.ogr)} = s.us[u].gr
                    /\ \A g \in Rng(e.ogr) : g.id = g.g /\ Rng(g.sc) = s.gs[g.g]
               [] e.op = "Decrypt" -> e.opay = s.objs[e.oid].pay
               [] e.op = "GetAccessGroups" -> Rng(e.olist) = s.objs[e.oid].acc
               [] e.op = "Search" -> e.olist = ListOf(s, e.kw)
               [] e.op = "OpenToken" -> e.opay = s.toks[e.pay].pay
               [] OTHER -> TRUE
      good == e.res = a /\ fresh /\ out
  IN [ok |-> good, st |-> IF good THEN After(s, c, e.new, e.exp, e.now) ELSE s, blame |-> P, find |-> {},
      why |-> [sig |-> "", op |-> e.op, expected |-> a, got |-> e.res, fresh |-> fresh, data |-> out, shown |-> e.opay, list |-> e.olist]]
==================================================================================
