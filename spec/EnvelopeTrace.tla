------------------------------ MODULE EnvelopeTrace -----------------------------
(* Judges recorded Encrypt and Decrypt calls of the cryptor and the AEAD (C24).    *)
EXTENDS Envelope, TraceBase
EnvInit(tr) == <<>>
R(ok, st, e, why) == [ok |-> ok, st |-> st, blame |-> {"C24"}, find |-> {}, why |-> [sig |-> "", what |-> why, op |-> e.op, res |-> e.res, out |-> e.out, note |-> e.note]]
EnvJudge(tr, e, i, s) ==
  CASE e.mut -> R(FALSE, s, e, "an argument was changed, or a plaintext delivered with a failure")
    [] e.op = "enc" -> R(e.res = "ok", Append(s, Item(e.kek, e.pt, e.aad)), e, "sealing failed")
    [] e.op = "dec" -> LET x == Out(s, e) IN R(e.res = x.res /\ e.out = x.out, s, e, "expected " \o x.res \o " " \o x.out)
    [] e.op = "key" -> R(e.res = IF e.n = 32 THEN "ok" ELSE "error", s, e, "key length")
===============================================================================
