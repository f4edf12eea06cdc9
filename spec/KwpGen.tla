---------------------------------- MODULE KwpGen --------------------------------
(* Decoded strings to be brought before Unwrap: every key length with every way a  *)
(* prefix, length field or padding can be off, and the verdict on each.            *)
EXTENDS Kwp, Json
CONSTANTS Lens
VARIABLE done
E(l) == PrintT("@E " \o ToJson([f |-> "s", t |-> "s", l |-> l]))
Mlis(n) == {<<0, m>> : m \in {x \in (IF n > 20 THEN n - 20 ELSE 0)..(n + 20) : x < 65536}} \cup {<<0, 0>>, <<0, 8>>, <<0, 16>>, <<0, 65535>>, <<1, n % 65536>>, <<32768, n % 65536>>, <<65535, 65535>>, <<65535, 65536 - 8>>, <<256, n % 65536>>, <<0, (n % 256) * 256>>}
Prefixes == {Prefix, <<42585, 22951>>, <<42584, 22950>>, <<Prefix[2], Prefix[1]>>, <<42662, 42662>>, <<0, 0>>, <<9817, 22950>>, <<42585, 55718>>}
Pads(n) == {0} \cup (n + 1)..(8 * Blocks(n))
Next == /\ done = 0 /\ done' = 1
        /\ \A n \in Lens :
             /\ \A m \in Mlis(n) : E([n |-> n, len |-> Total(n), prefix |-> Prefix, mli |-> m, nz |-> 0])
             /\ \A p \in Prefixes : E([n |-> n, len |-> Total(n), prefix |-> p, mli |-> <<0, n>>, nz |-> 0])
             /\ \A z \in Pads(n) : E([n |-> n, len |-> Total(n), prefix |-> Prefix, mli |-> <<0, n>>, nz |-> z])
Init == done = 0
Spec == Init /\ [][Next]_done
===============================================================================
