---------------------------------- MODULE KwpMC ---------------------------------
(* C25: every admissible key length encodes to something accepted, and a decoded   *)
(* string is accepted for at most one key, whatever its length field and padding.  *)
EXTENDS Kwp
CONSTANTS Lens, Mlis, CheckPad
VARIABLES n, len, mli, nz
Init == n \in Lens /\ len \in {Total(m) : m \in Lens} /\ mli \in Mlis /\ nz \in 0..(len - 8)
Next == UNCHANGED <<n, len, mli, nz>>
Spec == Init /\ [][Next]_<<n, len, mli, nz>>
Acc == IF CheckPad THEN Accepts(len, Prefix, <<0, mli>>, nz) ELSE Accepts(len, Prefix, <<0, mli>>, 0)
Inverse == Wraps(n) => LET e == Encode(n) IN Accepts(e.len, e.prefix, e.mli, n) /\ Num(e.mli) = n
(* what is accepted is what Encode makes for a key of that length (a key ending in zeros has nz < n) *)
Exact == Acc => /\ Encode(mli) = [len |-> len, prefix |-> Prefix, mli |-> <<0, mli>>, body |-> mli]
                /\ nz <= mli
===============================================================================
