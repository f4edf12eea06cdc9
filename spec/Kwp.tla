----------------------------------- MODULE Kwp ----------------------------------
(* Key wrapping with padding (RFC 5649, SP 800-38F KWP).  W is an idealised         *)
(* permutation of strings of 8-byte blocks; what is specified is what it is applied *)
(* to: prefix A65959A6, 32-bit length, key, zero padding to whole blocks.  32-bit   *)
(* numbers are pairs of 16-bit halves.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Prefix == <<42585, 22950>>             \* A659 59A6
MinKey == 16
MaxKey == 8192
Blocks(n) == (n + 7) \div 8
Total(n) == 8 + 8 * Blocks(n)
Encode(n) == [len |-> Total(n), prefix |-> Prefix, mli |-> <<n \div 65536, n % 65536>>, body |-> n]
Wraps(n) == n >= MinKey /\ n <= MaxKey
(* lastnz: index of the last byte of the body that is not zero, 0 if none *)
Num(m) == IF m[1] > 1 THEN 131072 ELSE m[1] * 65536 + m[2]   \* larger than any admissible length
Accepts(len, prefix, mli, lastnz) ==
  /\ len % 8 = 0 /\ len >= Total(MinKey) /\ len <= Total(MaxKey)
  /\ prefix = Prefix
  /\ Total(Num(mli)) = len
  /\ lastnz <= Num(mli)
===============================================================================
