-------------------------------- MODULE Tokens --------------------------------
(* Tokens: sealed contents with an expiry.                                      *)
(* A sealed token is [exp, ct, wk]: the expiry in the clear, the ciphertext     *)
(* (naming contents, expiry and data key used for sealing) and the wrapped data *)
(* key (naming the data key and the token key that wraps it).                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

SealToken(pay, exp, dek, kek) == [exp |-> exp, ct |-> [pay |-> pay, exp |-> exp, dek |-> dek], wk |-> [dek |-> dek, kek |-> kek]]

(* Le: the order of instants, as instants are represented differently in models and traces *)
Opens(tok, kek, now, Le(_, _)) ==
  /\ Le(now, tok.exp)            \* valid up to and including the expiry
  /\ tok.wk.kek = kek
  /\ tok.wk.dek = tok.ct.dek
  /\ tok.ct.exp = tok.exp
=============================================================================
