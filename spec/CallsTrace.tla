-------------------------------- MODULE CallsTrace --------------------------------
(* Judges what the library asks of its providers, and when (C34).                      *)
EXTENDS Calls, TraceBase
CallsInit(tr) == Idle
CallsJudge(tr, e, i, r) ==
  LET out(ok, st, why) == [ok |-> ok, st |-> st, blame |-> {"C34"}, find |-> {},
                           why |-> [sig |-> "", what |-> why, op |-> e.op, event |-> e.what, who |-> e.who, call |-> e.k, running |-> ToString(DOMAIN r)]]
  IN CASE e.what = "begin" -> out(TRUE, Begin(r, e.k, e.tok, e.dl), "")
       [] e.what = "end of context" -> out(TRUE, IF e.k \in DOMAIN r THEN Ended(r, e.k) ELSE r, "")
       [] e.what = "ask" ->
            out(MayAsk(r, e.k, e.by, e.who, e.tok, e.dl, e.done), IF e.k \in DOMAIN r THEN Asked(r, e.k) ELSE r,
                IF e.k = 0 THEN "without the context of a caller" ELSE IF e.k \notin DOMAIN r THEN "after the call has returned"
                ELSE IF e.by \notin {0, e.k} THEN "under the context of another call"
                ELSE IF e.who = "idp" /\ e.tok # r[e.k].tok THEN "with another token" ELSE "without the end or deadline of the caller's context")
       [] e.what = "answer" -> out(TRUE, IF e.k \in DOMAIN r THEN Answered(r, e.k, e.for, e.failed) ELSE r, "")
       [] e.what = "return" ->
            out(e.res # "panic" /\ MayReturn(r, e.k, e.res, e.cause), Return(r, e.k),
                IF e.res = "panic" THEN "panic" ELSE IF r[e.k].open # 0 THEN "returns before its requests are answered" ELSE "the cause of the failure is lost")
==================================================================================
