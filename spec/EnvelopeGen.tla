------------------------------- MODULE EnvelopeGen ------------------------------
(* Sealing up to three items and attempting to open every combination of their     *)
(* parts, altered in every way listed.                                             *)
EXTENDS Envelope, Json
CONSTANTS Keks, Pts, Aads, Alts, MaxItems
VARIABLE items
E(l) == PrintT("@E " \o ToJson([f |-> ToString(items), t |-> ToString(items'), l |-> l]))
L(op, kek, pt, aad, ct, calt, wk, walt) == [op |-> op, kek |-> kek, pt |-> pt, aad |-> aad, ct |-> ct, calt |-> calt, wk |-> wk, walt |-> walt]
Init == items = <<>>
Next == \/ /\ Len(items) < MaxItems
           /\ \E kek \in Keks, pt \in Pts, aad \in Aads :
                items' = Append(items, Item(kek, pt, aad)) /\ E(L("enc", kek, pt, aad, 0, "no", 0, "no"))
        \/ \E c, w \in 1..Len(items), kek \in Keks, aad \in Aads, ca, wa \in Alts :
                /\ ca = "no" \/ wa = "no"
                /\ (c # w \/ aad # items[c].aad \/ kek # items[w].kek) => (ca = "no" /\ wa = "no")
                /\ items' = items /\ E(L("dec", kek, "", aad, c, ca, w, wa))
Spec == Init /\ [][Next]_items
===============================================================================
