----------------------------- MODULE TokensTrace -----------------------------
(* Judges recorded token histories under a simulated clock (C10, C11).         *)
(* Instants are <<seconds, nanoseconds>>.                                       *)
EXTENDS Tokens, TraceBase

LeT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Plus(a, b) == LET n == a[2] + b[2] IN IF n >= 1000000000 THEN <<a[1] + b[1] + 1, n - 1000000000>> ELSE <<a[1] + b[1], n>>

TokInit(tr) == [toks |-> <<>>, now |-> <<0, 0>>]

JunkCt == [pay |-> "junk", exp |-> <<-1, 0>>, dek |-> -1]
JunkWk == [dek |-> -2, kek |-> "junk"]

CreateJudge(s, e) ==
  LET n == Len(s.toks) + 1
      ok == /\ e.res = "ok" /\ e.tid = n /\ ~e.mut
            /\ e.exp = Plus(e.now, e.validity)
  IN [ok |-> ok, st |-> [s EXCEPT !.toks = Append(@, SealToken(e.pay, e.exp, n, e.key)), !.now = e.now],
      blame |-> {"C10"}, why |-> [op |-> "Create", got |-> e.res, exp |-> e.exp, expected |-> Plus(e.now, e.validity)], find |-> {}]

Ct(s, i) == IF i = 0 THEN JunkCt ELSE s.toks[i].ct
Wk(s, i) == IF i = 0 THEN JunkWk ELSE s.toks[i].wk

(* a token assembled from parts: expiry e.exp, ciphertext of token e.c, wrapped key of token e.w (0: junk) *)
PresentJudge(s, e) ==
  LET tok == [exp |-> e.exp, ct |-> Ct(s, e.c), wk |-> Wk(s, e.w)]
      must == Opens(tok, e.key, e.now, LeT)
      intact == e.c # 0 /\ e.c = e.w /\ e.exp = s.toks[e.c].exp /\ e.key = s.toks[e.c].wk.kek
      ok == /\ e.res = (IF must THEN "ok" ELSE "no")
            /\ must => e.opay = tok.ct.pay /\ e.oexp = e.exp
            /\ ~e.mut /\ ~e.leak
  IN [ok |-> ok, st |-> [s EXCEPT !.now = e.now],
      blame |-> IF intact /\ e.res # "panic" THEN {"C10"} ELSE {"C11"},
      why |-> [op |-> "Present", via |-> e.via, got |-> e.res, must_open |-> must, intact |-> intact], find |-> {}]

(* an altered string form of token e.c (0: of none): rejected, or exactly that token *)
StringJudge(s, e) ==
  LET ok == \/ e.res = "no"
            \/ /\ e.res = "ok" /\ e.c # 0
               /\ e.opay = s.toks[e.c].ct.pay
               /\ e.oexp = s.toks[e.c].exp
               /\ LeT(e.now, s.toks[e.c].exp)
               /\ e.key = s.toks[e.c].wk.kek
  IN [ok |-> ok /\ ~e.leak, st |-> [s EXCEPT !.now = e.now], blame |-> {"C11"},
      why |-> [op |-> "String", via |-> e.via, got |-> e.res], find |-> {}]

(* the string form of an unaltered token, decoded *)
EncodeJudge(s, e) ==
  LET ok == e.res = "ok" /\ e.oexp = s.toks[e.c].exp /\ e.same
  IN [ok |-> ok, st |-> s, blame |-> {"C10"}, why |-> [op |-> "Encode", got |-> e.res, exp |-> e.oexp], find |-> {}]

TokJudge(tr, e, i, s) ==
  CASE e.op = "Create" -> CreateJudge(s, e)
    [] e.op = "Present" -> PresentJudge(s, e)
    [] e.op = "String" -> StringJudge(s, e)
    [] e.op = "Encode" -> EncodeJudge(s, e)
=============================================================================
