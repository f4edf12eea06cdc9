-------------------------------- MODULE Envelope --------------------------------
(* Authenticated envelope encryption with idealised primitives: a sealed item is   *)
(* a wrapped key and a ciphertext; each opens only unaltered and under the same     *)
(* key and associated data.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Item(kek, pt, aad) == [kek |-> kek, pt |-> pt, aad |-> aad]
(* an attempt takes the ciphertext of one item and the wrapped key of another (0: none), each *)
(* possibly altered; the outcome: *)
Opens(items, a) ==
  /\ a.ct > 0 /\ a.ct = a.wk /\ a.calt = "no" /\ a.walt = "no"
  /\ a.aad = items[a.ct].aad /\ a.kek = items[a.wk].kek
Out(items, a) == IF Opens(items, a) THEN [res |-> "ok", out |-> items[a.ct].pt] ELSE [res |-> "error", out |-> ""]
===============================================================================
