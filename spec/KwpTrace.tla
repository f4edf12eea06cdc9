--------------------------------- MODULE KwpTrace -------------------------------
(* Judges recorded Wrap and Unwrap calls (C25).                                   *)
EXTENDS Kwp, TraceBase
KwpInit(tr) == 0
R(ok, e, why) == [ok |-> ok, st |-> 0, blame |-> {"C25"}, find |-> {}, why |-> [sig |-> "", what |-> why, op |-> e.op, len |-> e.len, res |-> e.res, note |-> e.note]]
KwpJudge(tr, e, i, s) ==
  CASE e.mut -> R(FALSE, e, "an argument was changed")
    [] e.op = "wrap" -> R((e.res = "ok") = Wraps(e.len) /\ (e.res = "ok" => e.same) /\ e.res \in {"ok", "error"}, e, "wrap")
    [] e.op = "unwrap" -> \* same: the result is the first mli bytes of the decoded body
         R((e.res = "ok") = Accepts(e.len, e.prefix, e.mli, e.nz) /\ (e.res = "ok" => e.same) /\ e.res \in {"ok", "error"}, e, "unwrap")
    [] e.op = "key" -> R((e.res = "ok") = (e.len \in {16, 32}) /\ e.res \in {"ok", "error"}, e, "wrapping key length")
===============================================================================
