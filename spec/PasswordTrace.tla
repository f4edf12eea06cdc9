------------------------------ MODULE PasswordTrace -----------------------------
(* Judges recorded GeneratePassword and Compare calls (C27).  pwoff, saltoff: where *)
(* the bytes were read from the system's randomness, -1 if they were not.           *)
EXTENDS Password, TraceBase
PwInit(tr) == [pws |-> {}, salts |-> {}, used |-> {}]
R(ok, st, e, why) == [ok |-> ok, st |-> st, blame |-> {"C27"}, find |-> {}, why |-> [sig |-> "", what |-> why, op |-> e.op, note |-> e.note]]
PwJudge(tr, e, i, s) ==
  CASE e.op = "gen" ->
         LET new == {<<e.pwoff, PwBytes>>, <<e.saltoff, SaltBytes>>}
             clash == \E a \in new : \E b \in s.used : ~Disjoint(a[1], a[2], b[1], b[2])
         IN R(e.pw \notin s.pws /\ e.salt \notin s.salts /\ e.pwoff >= 0 /\ e.saltoff >= 0 /\ ~clash /\ Disjoint(e.pwoff, PwBytes, e.saltoff, SaltBytes) /\ e.ok,
              [pws |-> s.pws \cup {e.pw}, salts |-> s.salts \cup {e.salt}, used |-> s.used \cup new], e,
              IF e.pwoff < 0 THEN "the password is not 32 bytes of system randomness" ELSE IF e.saltoff < 0 THEN "the salt is not system randomness"
              ELSE IF ~e.ok THEN "malformed result" ELSE "password, salt or their randomness was used before")
    [] e.op = "compare" -> R(e.ok = Accepts(e) /\ ~e.mut /\ ~e.panic, s, e, IF e.mut THEN "an argument was changed" ELSE IF e.ok THEN "accepted" ELSE "not accepted")
===============================================================================
