------------------------------ MODULE TokensGen ------------------------------
(* Bounded model of tokens under a clock and an adversary who combines fields  *)
(* of any tokens; checked exhaustively, and its labelled transitions are the   *)
(* walks executed on the real code (one tick is mapped to several durations).  *)
EXTENDS Tokens, Json

CONSTANTS MaxT, MaxTok, Keys, Validities, Emit
VARIABLES now, toks, out
vars == <<now, toks, out>>

Le(a, b) == a <= b
E(l) == Emit => PrintT("@E " \o ToJson([f |-> <<now, toks>>, t |-> <<now', toks'>>, l |-> l]))

Init == now = 0 /\ toks = <<>> /\ out = [res |-> "none"]

Tick == /\ now < MaxT /\ now' = now + 1 /\ UNCHANGED toks /\ out' = [res |-> "none"]
        /\ E([op |-> "Tick", v |-> 0, key |-> "", exp |-> 0, c |-> 0, w |-> 0])

Create(v, k) ==
  /\ Len(toks) < MaxTok
  /\ toks' = Append(toks, SealToken(Len(toks) + 1, now + v, Len(toks) + 1, k))
  /\ now' = now /\ out' = [res |-> "none"]
  /\ E([op |-> "Create", v |-> v, key |-> k, exp |-> 0, c |-> 0, w |-> 0])

(* present a token with the expiry `exp`, the ciphertext of token c, the wrapped key of token w *)
Present(exp, c, w, k) ==
  LET tok == [exp |-> exp, ct |-> toks[c].ct, wk |-> toks[w].wk] IN
  /\ out' = IF Opens(tok, k, now, Le) THEN [res |-> "ok", pay |-> tok.ct.pay, key |-> k] ELSE [res |-> "no"]
  /\ UNCHANGED <<now, toks>>
  /\ E([op |-> "Present", v |-> 0, key |-> k, exp |-> exp, c |-> c, w |-> w])

Exps == UNION {{toks[i].exp - 1, toks[i].exp, toks[i].exp + 1} : i \in DOMAIN toks}
Next == \/ Tick
        \/ \E v \in Validities, k \in Keys : Create(v, k)
        \/ \E c, w \in DOMAIN toks, k \in Keys : \E exp \in Exps : Present(exp, c, w, k)
Spec == Init /\ [][Next]_vars
View == <<now, toks>>

(* C10, C11: whatever is accepted is a token made by the library, unaltered, under its key, unexpired *)
Genuine == out.res = "ok" => \E i \in DOMAIN toks : toks[i].ct.pay = out.pay /\ toks[i].wk.kek = out.key /\ now <= toks[i].exp
=============================================================================
