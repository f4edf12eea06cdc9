------------------------------ MODULE IndexTrace ------------------------------
(* Judges recorded histories of index calls (C12-C15).                          *)
(* bel: keyword -> set of sequences the history allows; weak: the store has been *)
(* edited outside the library and only the rules for edited stores apply.        *)
EXTENDS Index, TraceBase

IdxInit(tr) == [bel |-> [x \in {} |-> {}], ever |-> [x \in {} |-> {}], kept |-> [x \in {} |-> {}],
                faulted |-> FALSE, weak |-> FALSE]
BelOf(s, k) == IF k \in DOMAIN s.bel THEN s.bel[k] ELSE {<<>>}
EverOf(s, k) == IF k \in DOMAIN s.ever THEN s.ever[k] ELSE {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Norm(e) == [e EXCEPT !.sc = Rng(e.sc)]

NextOf(e, b) ==
  LET full == CASE e.op = "Add" -> AfterAdd(b, e.id) [] e.op = "Delete" -> AfterDelete(b, e.id) [] OTHER -> b
      part == CASE e.op = "Add" -> {b, full} [] e.op = "Delete" -> Drop(b, e.id) [] OTHER -> {b}
  IN IF e.res = "ok" THEN (IF e.op = "Search" /\ e.ids # b THEN {} ELSE {full})
     ELSE IF e.res = "error" /\ e.flt > 0 THEN part
     ELSE {}

Plain(s, e0) ==
  LET e == Norm(e0)
      g == Gate(e)
      nxt == UNION {NextOf(e, b) : b \in BelOf(s, e.kw)}
      shown == e.res # "ok" => e.ids = <<>>
      okG == e.res = g /\ e.chg = 0 /\ e.calls = 0 /\ shown
      ok == IF g # "pass" THEN okG
            ELSE nxt # {} /\ shown /\ (e.op = "Search" => e.chg = 0)
      bad == IF g # "pass" /\ e.res # "panic" THEN {"C13"}
             ELSE IF e.res \in {"notauthn", "notauthz"} THEN {"C13"}
             ELSE IF s.faulted \/ e.flt > 0 THEN {"C14"} ELSE {"C12"}
  IN [ok |-> ok,
      st |-> IF ~ok \/ g # "pass" THEN s ELSE
             [s EXCEPT !.bel = Put(@, e.kw, nxt), !.faulted = @ \/ e.flt > 0,
                       !.ever = IF e.op = "Add" THEN Put(@, e.kw, EverOf(s, e.kw) \cup {e.id}) ELSE @],
      blame |-> bad, why |-> [op |-> e.op, got |-> e.res, returned |-> e.ids, allowed |-> BelOf(s, e.kw)], find |-> {}]

(* an edited store: whatever meets an altered or relocated record fails, and     *)
(* searches only return what was once added under the keyword                    *)
Weak(s, e0) ==
  LET e == Norm(e0)
      ok == /\ e.visbad > 0 => e.res = "error" /\ e.ids = <<>>
            /\ e.res \in {"ok", "error"}
            /\ Rng(e.ids) \subseteq EverOf(s, e.kw)
            /\ e.res # "ok" => e.ids = <<>>
  IN [ok |-> ok, st |-> [s EXCEPT !.ever = IF e.op = "Add" THEN Put(@, e.kw, EverOf(s, e.kw) \cup {e.id}) ELSE @],
      blame |-> {"C15"}, why |-> [op |-> e.op, got |-> e.res, bad_records_met |-> e.visbad, returned |-> e.ids], find |-> {}]

(* many calls in one event: the identifier of the keyword's only entry is        *)
(* replaced n times (Add of a new one, Delete of the old one)                    *)
Bulk(s, e) ==
  LET ok == e.res = "ok" /\ BelOf(s, e.kw) = {<<e.from>>}
  IN [ok |-> ok, st |-> [s EXCEPT !.bel = Put(@, e.kw, {<<e.id>>}), !.ever = Put(@, e.kw, EverOf(s, e.kw) \cup {e.id})],
      blame |-> {"C12"}, why |-> [op |-> "Bulk", got |-> e.res], find |-> {}]

(* many identifiers, none of them repeated or there before, added one by one     *)
Fill(s, e) ==
  [ok |-> e.res = "ok", st |-> [s EXCEPT !.bel = Put(@, e.kw, {b \o e.ids : b \in BelOf(s, e.kw)}), !.ever = Put(@, e.kw, EverOf(s, e.kw) \cup Rng(e.ids))],
   blame |-> {"C12"}, why |-> [op |-> "Fill", got |-> e.res], find |-> {}]

IdxJudge(tr, e, i, s) ==
  CASE e.op = "Edit" -> [ok |-> TRUE, st |-> [s EXCEPT !.weak = TRUE, !.kept = IF s.weak THEN @ ELSE s.bel], blame |-> {}, why |-> "", find |-> {}]
    [] e.op = "Restore" -> [ok |-> TRUE, st |-> [s EXCEPT !.weak = FALSE, !.bel = s.kept], blame |-> {}, why |-> "", find |-> {}]
    [] e.op = "Bulk" -> Bulk(s, e)
    [] e.op = "Fill" -> Fill(s, e)
    [] s.weak -> Weak(s, e)
    [] OTHER -> Plain(s, e)
=============================================================================
