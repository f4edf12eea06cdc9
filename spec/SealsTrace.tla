------------------------------- MODULE SealsTrace -------------------------------
(* Judges what was written to storage and sealed (C08, C09).                          *)
(*  write: one record handed to the storage provider; found: the classes of what a     *)
(*         reader without keys finds in its identifier or value; related: some stored   *)
(*         ciphertext shares a piece with an earlier one                              *)
(*  size:  a highly regular plaintext, its record compressed, in per mille              *)
(*  seal:  a data key (named by its bytes) and the pair with its nonce; koff, noff:     *)
(*         where in the system's randomness the key and nonce were read, -1 nowhere     *)
(*  id:    an object, user or group identifier handed out                             *)
(*  mix:   an object record read with an access record of the same (own) or of another   *)
(*         version of the same object                                                *)
EXTENDS Seals, TraceBase
SealsInit(tr) == [keys |-> {}, pairs |-> {}, used |-> {}, ids |-> {}]
KeyBytes == 32
NonceBytes == 12
Disjoint(o1, n1, o2, n2) == o1 + n1 <= o2 \/ o2 + n2 <= o1
R(ok, st, p, e, why) == [ok |-> ok, st |-> st, blame |-> {p}, find |-> {}, why |-> [sig |-> "", what |-> why, op |-> e.op, kind |-> e.kind, note |-> e.note]]
SealsJudge(tr, e, i, s) ==
  CASE e.op = "write" ->
         LET bad == {e.found[j] : j \in 1..Len(e.found)} \ MayShow(e.kind)
         IN R(bad = {} /\ ~e.related, s, "C08", e, IF bad # {} THEN "shows " \o ToString(bad) ELSE "shares a piece with another ciphertext")
    [] e.op = "size" -> R(e.koff >= 990, s, "C08", e, "a ciphertext can be compressed")
    [] e.op = "seal" ->
         LET k == <<e.koff, KeyBytes>>
             n == IF e.noff >= 0 THEN {<<e.noff, NonceBytes>>} ELSE {}
             known == e.koff >= 0
             clash == known /\ (\/ \E u \in s.used : ~Disjoint(k[1], k[2], u[1], u[2])
                              \/ \E v \in n : ~Disjoint(k[1], k[2], v[1], v[2]))
         IN R(e.key \notin s.keys /\ e.pair \notin s.pairs /\ known /\ ~clash,
              [s EXCEPT !.keys = @ \cup {e.key}, !.pairs = @ \cup {e.pair}, !.used = @ \cup {k} \cup n], "C09", e,
              IF e.key \in s.keys THEN "a key is used again" ELSE IF ~known THEN "the key is not system randomness"
              ELSE "the key's randomness was used before")
    [] e.op = "key" -> R(e.key \notin s.keys, [s EXCEPT !.keys = @ \cup {e.key}], "C09", e, "a key is used again")
    [] e.op = "id" -> R(e.key \notin s.ids, [s EXCEPT !.ids = @ \cup {e.key}], "C09", e, "an identifier is used again")
    [] e.op = "mix" -> R(e.opened = e.own, s, "C09", e, IF e.opened THEN "opened with another version's key" ELSE "not opened")
===============================================================================
