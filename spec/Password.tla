-------------------------------- MODULE Password --------------------------------
(* Password hashes with an ideal slow hash: hash(p, s) determines p and s.          *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
PwBytes == 32
SaltBytes == 8
(* an attempt: the password (or how it differs), the salt and the hash part *)
Accepts(a) == a.pw = "same" /\ a.salt = "same" /\ a.hash = "same"
(* intervals of system randomness *)
Disjoint(o1, n1, o2, n2) == o1 + n1 <= o2 \/ o2 + n2 <= o1
===============================================================================
