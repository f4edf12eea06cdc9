--------------------------------- MODULE KmacMC ---------------------------------
(* C26: the strings fed to Keccak differ whenever key, customization, message or   *)
(* output size differ, also when zero bytes or lengths are mixed up, for every     *)
(* combination of short inputs and for a rate small enough that padding happens in *)
(* every alignment.  Each state picks one input; TLC's states are the strings.     *)
EXTENDS Kmac
CONSTANTS Bytes, MaxK, MaxS, MaxX, TagLens, W, NoLength
Str(n) == UNION {[1..m -> Bytes] : m \in 0..n}
VARIABLES mk, ms, mx, mt
vars == <<mk, ms, mx, mt>>
Enc(a) == IF NoLength THEN a ELSE EncodeString(a)
Built(kk, ss, xx, tt) == Bytepad(EncodeString(NKMAC) \o Enc(ss), W) \o Bytepad(Enc(kk), W) \o xx \o RightEncode(8 * tt)
(* decoding: from the string alone the inputs can be read off *)
RECURSIVE Val(_)
Val(b) == IF b = <<>> THEN 0 ELSE Val(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
LDec(y) == [v |-> Val(SubSeq(y, 2, 1 + y[1])), rest |-> SubSeq(y, 2 + y[1], Len(y))]
SDec(y) == LET l == LDec(y) IN [s |-> SubSeq(l.rest, 1, l.v \div 8), rest |-> SubSeq(l.rest, l.v \div 8 + 1, Len(l.rest))]
Blk(y) == \* one bytepad: rate, then strings until the block ends
  LET l == LDec(y) IN l.rest
Skip(all, rest) == LET used == Len(all) - Len(rest) IN SubSeq(all, used + PadLen(used, W) + 1, Len(all))
Decode(y) ==
  LET n == SDec(Blk(y))
      ss == SDec(n.rest)
      y2 == Skip(y, ss.rest)
      kk == SDec(Blk(y2))
      y3 == Skip(y2, kk.rest)
      tl == y3[Len(y3)]
      tt == Val(SubSeq(y3, Len(y3) - tl, Len(y3) - 1))
  IN [k |-> kk.s, s |-> ss.s, x |-> SubSeq(y3, 1, Len(y3) - tl - 1), t |-> tt \div 8]
Init == mk \in Str(MaxK) /\ ms \in Str(MaxS) /\ mx \in Str(MaxX) /\ mt \in TagLens
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Separates == Decode(Built(mk, ms, mx, mt)) = [k |-> mk, s |-> ms, x |-> mx, t |-> mt]
ViaFrame == LET f == Frame(Len(mk), Len(ms), mt, W)
            IN Built(mk, ms, mx, mt) = f.a \o ms \o Zeros(f.az) \o f.b \o mk \o Zeros(f.bz) \o mx \o f.e
===============================================================================
