-------------------------------- MODULE KeysTrace --------------------------------
(* Judges the making of instances and what instances with other keys can use (C32).    *)
EXTENDS Keys, TraceBase
KeysInit(tr) == Empty
R(ok, st, e, why) == [ok |-> ok, st |-> st, blame |-> {"C32"}, find |-> {}, why |-> [sig |-> "", what |-> why, op |-> e.op, comp |-> e.comp, k |-> e.k, note |-> e.note]]
OutOk(s, e) ==
  CASE e.res # "ok" -> e.out = <<>> \/ e.op = "Search"
    [] e.op = "Decrypt" -> e.out = <<s.obj.pay>>
    [] e.op = "Open" -> e.out = <<s.toks[e.n][2]>>
    [] e.op = "Search" -> Len(e.out) = Len(ListOf(s, e.k["IEK"])) /\ {e.out[j] : j \in 1..Len(e.out)} = IdsOf(s, e.k["IEK"])
    [] OTHER -> e.out = <<>>
(* Delete answers success as well when there is no access record to read                  *)
May(s, e) == IF e.op = "Delete" /\ ~s.obj.live THEN TRUE ELSE Ok(s, e.k, e.op, e.n)
KeysJudge(tr, e, i, s) ==
  CASE e.op = "create" ->
         R(e.res = (IF Creates(e.comp, e.k, e.prov) THEN "ok" ELSE "err"), s, e, "creation: " \o e.res)
    [] OTHER ->
         LET may == May(s, e)
         IN R(e.res = (IF may THEN "ok" ELSE "err") /\ OutOk(s, e), After(s, e.k, e.op, e.n, e.pay), e,
              IF e.res # (IF may THEN "ok" ELSE "err") THEN "result: " \o e.res ELSE "wrong data")
===============================================================================
