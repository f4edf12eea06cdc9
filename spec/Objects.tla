------------------------------- MODULE Objects -------------------------------
(* Objects and their access lists: what is stored, and what each call means.  *)
(*                                                                            *)
(* An object has (at most) two stored records.                                *)
(*   object record  [ad, ct]   ct = [oid, ad, pay, dek]                       *)
(*   access record  [wk, ct]   ct = [oid, key, gs, dek]                       *)
(* Cryptography is symbolic: a ciphertext is a record naming what was sealed  *)
(* and under which key; a wrapped key is the name of the key.  Opening works  *)
(* exactly when key, ID and associated data are those used for sealing.       *)
(* A slot is {} (absent) or {record}.                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

OpScope == [ Encrypt |-> "Encrypt", Update |-> "Update", Decrypt |-> "Decrypt", Delete |-> "Delete",
             GetAccessGroups |-> "GetAccessGroups", AddGroupsToAccess |-> "ModifyAccessGroups",
             RemoveGroupsFromAccess |-> "ModifyAccessGroups", AuthorizeIdentity |-> "GetAccessGroups" ]
ObjOps == DOMAIN OpScope

Range(s) == {s[i] : i \in DOMAIN s}
The(S) == CHOOSE x \in S : TRUE

----------------------------------------------------------------------------
(* Records *)
SealObj(oid, pay, ad, dek) == [ad |-> ad, ct |-> [oid |-> oid, ad |-> ad, pay |-> pay, dek |-> dek]]
SealAcc(oid, gs, dek, key) == [wk |-> key, ct |-> [oid |-> oid, key |-> key, gs |-> gs, dek |-> dek]]

JunkObjCt == [oid |-> "junk", ad |-> "junk", pay |-> "junk", dek |-> -1]
JunkAccCt == [oid |-> "junk", key |-> -1, gs |-> {}, dek |-> -1]
JunkKey == -2

AccOpens(rec, oid) == rec.wk = rec.ct.key /\ rec.ct.oid = oid
ObjOpens(rec, oid, dek) == rec.ct.dek = dek /\ rec.ct.oid = oid /\ rec.ct.ad = rec.ad

Absent == [o |-> {}, a |-> {}]

(* the access list as seen by a caller holding the right keys; {} if there is none *)
ListOf(oid, s) == IF s.a # {} /\ AccOpens(The(s.a), oid) THEN The(s.a).ct.gs ELSE {}
DekOf(s) == The(s.a).ct.dek

----------------------------------------------------------------------------
(* Callers: [auth, id, sc, gr] with sc a set of scopes and gr a set of [g, sc] *)
HoldsScope(c, scope) == scope \in c.sc
(* IDs of the caller that carry the scope *)
Eligible(c, scope) == (IF scope \in c.sc THEN {c.id} ELSE {})
                      \cup {x.g : x \in {y \in c.gr : scope \in y.sc}}

(* What call `op` by caller c must answer when the object's records are s *)
Gate(op, c) == IF ~c.auth THEN "notauthn"
               ELSE IF ~HoldsScope(c, OpScope[op]) THEN "notauthz" ELSE "pass"

Verdict(op, c, oid, s) ==
  IF Gate(op, c) # "pass" THEN Gate(op, c)
  ELSE IF op = "Encrypt" THEN "ok"
  ELSE IF s.a = {} THEN (IF op = "Delete" THEN "ok" ELSE "notfound")
  ELSE IF ~AccOpens(The(s.a), oid) THEN "error"
  ELSE IF Eligible(c, OpScope[op]) \cap ListOf(oid, s) = {} THEN "notauthz"
  ELSE IF op \in {"Decrypt", "Update"} /\ s.o = {} THEN "notfound"
  ELSE IF op = "Decrypt" THEN (IF ObjOpens(The(s.o), oid, DekOf(s)) THEN "ok" ELSE "error")
  ELSE "ok"

(* The stored records after a fully effective call.  n is a fresh key name.   *)
(* (Delete of an ID without access record does nothing: there is no object.   *)
(* Only a failed Encrypt, whose ID nobody was told, leaves data like that.)   *)
Effect(op, c, oid, pay, ad, gs, s, n) ==
  CASE op = "Encrypt" -> [o |-> {SealObj(oid, pay, ad, n)}, a |-> {SealAcc(oid, gs \cup {c.id}, n, n)}]
    [] op = "Update"  -> [o |-> {SealObj(oid, pay, ad, n)}, a |-> {SealAcc(oid, ListOf(oid, s), n, n)}]
    [] op = "Delete"  -> IF s.a = {} THEN s ELSE Absent
    [] op = "AddGroupsToAccess" -> [s EXCEPT !.a = {SealAcc(oid, ListOf(oid, s) \cup gs, DekOf(s), n)}]
    [] op = "RemoveGroupsFromAccess" -> [s EXCEPT !.a = {SealAcc(oid, ListOf(oid, s) \ gs, DekOf(s), n)}]
    [] OTHER -> s

Writes(op) == op \in {"Encrypt", "Update", "Delete", "AddGroupsToAccess", "RemoveGroupsFromAccess"}

(* States a failing call may leave behind besides "before" and "after".  Each *)
(* carries the name of the deviation it represents; "" is an allowed one.     *)
(*   Encrypt: one record without the other, or both removed again (nobody     *)
(*   was told the ID).                                                        *)
(*   Delete: the object record gone, the access record still there.           *)
(*   Update: a torn pair is NOT allowed; it is named so that it is reported   *)
(*   as that finding and the rest of the history can still be judged.         *)
Partial(op, s, after) ==
  CASE op = "Encrypt" -> {[st |-> [o |-> after.o, a |-> {}], tag |-> ""], [st |-> [o |-> {}, a |-> after.a], tag |-> ""], [st |-> s, tag |-> ""]}
    [] op = "Delete" /\ s.a # {} -> {[st |-> [o |-> {}, a |-> s.a], tag |-> ""]}
    [] op = "Update"  -> {[st |-> [o |-> after.o, a |-> s.a], tag |-> "torn-update"]}
    [] OTHER -> {}
=============================================================================
