-------------------------------- MODULE KvTrace --------------------------------
(* Judges recorded calls of the storage providers (C21-C23).                      *)
EXTENDS Kv, TraceBase
KvInit(tr) == [x \in {} |-> {}]
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE Start(Absent)
With(s, i, cs) == [x \in DOMAIN s \cup {i} |-> IF x = i THEN cs ELSE s[x]]
Blame(tr) == CASE tr.kind = "seq" -> {"C21"} [] tr.kind = "conc" -> {"C22"} [] tr.kind = "crash" -> {"C23"}
R(ok, st, tr, e, why) == [ok |-> ok, st |-> st, blame |-> Blame(tr), find |-> {},
                          why |-> [sig |-> "", what |-> why, op |-> e.op, item |-> e.item, got |-> e.res, out |-> e.out]]
KvJudge(tr, e, i, s) ==
  CASE e.op = "begin" -> R(TRUE, With(s, e.item, Begin(At(s, e.item), e.n, e.what, e.val)), tr, e, "")
    [] e.op = "end" -> LET cs == End(At(s, e.item), e.n, e.res, e.out) IN
                       R(cs # {}, With(s, e.item, cs), tr, e, "no order of the calls explains this result")
    [] e.op = "call" -> \* one call with nothing else running
         LET cs == End(Begin(At(s, e.item), e.n, e.what, e.val), e.n, e.res, e.out) IN
         R(cs # {} /\ ~e.mut, With(s, e.item, cs), tr, e, IF e.mut THEN "the caller's buffers changed" ELSE "not what a map would answer")
    [] e.op = "crash" -> R(TRUE, [x \in DOMAIN s |-> Crash(s[x])], tr, e, "")
    [] e.op = "open" -> R(e.res = e.want, s, tr, e, "open: expected " \o e.want)
    [] e.op = "count" -> \* items present in storage, counted by another route
         R(e.n = Cardinality({x \in DOMAIN s : \A c \in s[x] : c.v # Absent}) \/ \E x \in DOMAIN s : Cardinality({c.v : c \in s[x]}) > 1, s, tr, e, "wrong number of items")
===============================================================================
