---------------------------------- MODULE Calls ----------------------------------
(* Calls of the library and the calls they make on the providers. A call begins, asks  *)
(* providers, and returns. What it asks is asked for its caller: under the caller's     *)
(* context, with the caller's token, and before it returns.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
NoFn == [x \in {} |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
(* running: call -> [tok, dl, over, failed, open]: its token, the deadline of its       *)
(* context (0: none), whether that context has ended, which requests the providers of    *)
(* storage and keys have failed and not answered since, and how many are not answered    *)
Idle == NoFn
Begin(r, k, tok, dl) == Put(r, k, [tok |-> tok, dl |-> dl, over |-> FALSE, failed |-> {}, open |-> 0])
Ended(r, k) == [r EXCEPT ![k].over = TRUE]
Asked(r, k) == [r EXCEPT ![k].open = @ + 1]
Answered(r, k, what, failed) == [r EXCEPT ![k].open = @ - 1, ![k].failed = IF failed THEN @ \cup {what} ELSE @ \ {what}]
Return(r, k) == Del(r, k)

(* may a provider be asked like this?  k: the call the context belongs to; by: the call  *)
(* on whose behalf it is asked, where that is known otherwise (0: it is not)              *)
MayAsk(r, k, by, who, tok, dl, done) ==
  /\ k \in DOMAIN r
  /\ by \in {0, k}
  /\ who = "idp" => tok = r[k].tok
  /\ r[k].dl # 0 => (dl # 0 /\ dl <= r[k].dl)
  /\ r[k].over => done
(* may the call return this?  cause: the storage's own error can be found in it          *)
(* (a caller who cannot be authenticated is told no more than that)                      *)
MayReturn(r, k, res, cause) == k \in DOMAIN r /\ r[k].open = 0 /\ (res = "error" /\ r[k].failed # {} => cause)
==================================================================================
