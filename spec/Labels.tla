-------------------------------- MODULE Labels --------------------------------
(* How index records are addressed: a label is an injective function of the      *)
(* secret index key, the keyword and the position; values never repeat.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
(* tab: (key, keyword, position) -> label, as far as seen *)
Extends(tab, p, l) == /\ p \in DOMAIN tab => tab[p] = l
                      /\ \A q \in DOMAIN tab \ {p} : tab[q] # l
=============================================================================
