-------------------------------- MODULE EnvelopeMC ------------------------------
(* C24: the construction (fresh data key, AEAD under it, the data key wrapped under *)
(* the KEK) opens exactly where Envelope says, with ideal primitives: an AEAD       *)
(* ciphertext [k, aad, pt] opens under k and aad only, a wrapped key [kek, k] under *)
(* kek only, and an altered string under nothing.  FreshKey = FALSE reuses one data *)
(* key, BindAad = FALSE leaves the associated data out; both break it.              *)
EXTENDS Envelope
CONSTANTS Keks, Pts, Aads, MaxItems, FreshKey, BindAad
VARIABLES items, cts, wks
vars == <<items, cts, wks>>
Init == items = <<>> /\ cts = <<>> /\ wks = <<>>
Seal(kek, pt, aad) ==
  LET k == IF FreshKey THEN Len(items) + 1 ELSE 1 IN
  /\ items' = Append(items, Item(kek, pt, aad))
  /\ cts' = Append(cts, [k |-> k, aad |-> IF BindAad THEN aad ELSE "", pt |-> pt])
  /\ wks' = Append(wks, [kek |-> kek, k |-> k])
Next == Len(items) < MaxItems /\ \E kek \in Keks, pt \in Pts, aad \in Aads : Seal(kek, pt, aad)
Spec == Init /\ [][Next]_vars
Attempts == [ct : 1..Len(items), wk : 1..Len(items), calt : {"no", "yes"}, walt : {"no", "yes"}, aad : Aads, kek : Keks]
Real(a) == IF /\ a.walt = "no" /\ wks[a.wk].kek = a.kek
              /\ a.calt = "no" /\ cts[a.ct].k = wks[a.wk].k /\ cts[a.ct].aad = (IF BindAad THEN a.aad ELSE "")
           THEN [res |-> "ok", out |-> cts[a.ct].pt] ELSE [res |-> "error", out |-> ""]
Exact == \A a \in Attempts : Real(a) = Out(items, a)
===============================================================================
