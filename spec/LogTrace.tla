---------------------------------- MODULE LogTrace ----------------------------------
(* Judges recorded log lines (C31).                                                    *)
(*  lib:   a line written while the library was at work; stack: the nested calls         *)
(*  probe: a line the storage provider wrote through the context it was given; write: it  *)
(*         was asked to change something, which only the innermost call itself does       *)
(*  own:   a line the caller wrote through its own logger after a call                    *)
(*  quiet: lines written during a call without a logger                                  *)
(*  stray: lines written past the logger                                                *)
EXTENDS Log, TraceBase
LogInit(tr) == 0
R(ok, e, why) == [ok |-> ok, st |-> 0, blame |-> {"C31"}, find |-> {}, why |-> [sig |-> "", what |-> why, kind |-> e.kind, stack |-> e.stack, methods |-> e.methods, logger |-> e.logger, line |-> e.line]]
Ids(e) == /\ (e.xoid # "*" => All(e.oids, e.xoid)) /\ (e.xuid # "*" => All(e.uids, e.xuid))
          /\ (e.xoid = "*" => \A j \in 1..Len(e.oids) : e.oids[j] = e.oids[1] /\ ~e.foreign)
LogJudge(tr, e, i, s) ==
  CASE e.kind = "lib" ->
         IF e.level # "debug" THEN R(FALSE, e, "level " \o e.level)
         ELSE IF ~e.base THEN R(FALSE, e, "the fields of the caller's logger are not as they were")
         ELSE IF ~MethodsOk(e.stack, e.methods) THEN R(FALSE, e, "the method is another call's")
         ELSE R(Ids(e), e, "the user or the object is another call's")
    [] e.kind = "probe" ->
         IF ~e.base THEN R(FALSE, e, "the provider's logger lost or gained fields of the caller")
         ELSE IF ~(IF e.write THEN MethodsExact(e.stack, e.methods) ELSE MethodsOk(e.stack, e.methods)) THEN R(FALSE, e, "the provider's logger names another method")
         ELSE R(Ids(e), e, "the provider's logger names another user or object")
    [] e.kind = "own" -> R(e.base /\ e.methods = <<>> /\ e.uids = <<>> /\ e.oids = <<>>, e, "the caller's logger was changed")
    [] e.kind = "quiet" -> R(e.lines = 0, e, "lines without a logger")
    [] e.kind = "stray" -> R(FALSE, e, "a line past the caller's logger")
===============================================================================
