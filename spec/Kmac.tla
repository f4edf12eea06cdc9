---------------------------------- MODULE Kmac ---------------------------------
(* The byte strings SP 800-185 feeds to Keccak for KMAC.  Keccak itself is        *)
(* idealised: different strings have different digests.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE BE(_)
BE(x) == IF x < 256 THEN <<x>> ELSE BE(x \div 256) \o <<x % 256>>    \* big-endian, no leading zeros, at least one byte
LeftEncode(x) == LET b == BE(x) IN <<Len(b)>> \o b
RightEncode(x) == LET b == BE(x) IN b \o <<Len(b)>>
PadLen(n, w) == (w - (n % w)) % w
Bytepad(x, w) == LET y == LeftEncode(w) \o x IN y \o Zeros(PadLen(Len(y), w))
EncodeString(s) == LeftEncode(8 * Len(s)) \o s
NKMAC == <<75, 77, 65, 67>>
(* the whole string for concrete bytes *)
Input(k, s, x, taglen, w) == Bytepad(EncodeString(NKMAC) \o EncodeString(s), w) \o Bytepad(EncodeString(k), w) \o x \o RightEncode(8 * taglen)
(* the same as a frame around strings of which only the length is known *)
Frame(klen, slen, taglen, w) ==
  LET a == LeftEncode(w) \o EncodeString(NKMAC) \o LeftEncode(8 * slen)
      b == LeftEncode(w) \o LeftEncode(8 * klen)
  IN [w |-> w, klen |-> klen, slen |-> slen, tag |-> taglen,
      a |-> a, az |-> PadLen(Len(a) + slen, w), b |-> b, bz |-> PadLen(Len(b) + klen, w), e |-> RightEncode(8 * taglen)]
(* customization strings that leave nothing to pad *)
Fills(slen, w) == Frame(0, slen, 8, w).az = 0

(* a MAC under way: what has been written since the last reset *)
Write(x, c) == x \o c
===============================================================================
